"""C10: solution objects and their printed forms denote the same certificate."""
import warnings

from hypothesis import strategies as st
import mpmath
import sympy as sp
from sympy.combinatorics import Permutation, PermutationGroup
from triples.utils.expression import CyclicProduct, CyclicSum
from triples.utils.expression.cyclic import CyclicExpr
from triples.utils.expression.solution import Solution, SolutionSimple

from .. import cyc, evalx, gen, printed
from ..core import Check

CHECK = Check("C10", rule="random certificates (sums of weighted squares, cyclic sums and products over one group, optional denominators, "
              "rational or surd weights) with the polynomial they prove or a slightly different one; operations compared with the value "
              "from the definition, printed forms read back by an independent reader. Non-trivial: the certificate has at least two "
              "terms or a denominator.")
LET = "abcd"


def _form(n, lo=-3, hi=3):
    return st.lists(st.tuples(st.integers(lo, hi), gen.exponents(n, 2)).map(list), min_size=1, max_size=3).map(
        lambda l: ["+"] + [["*", ["n", c, 1]] + [["^", ["s", i], k] for i, k in enumerate(e) if k] for c, e in l])


@st.composite
def _term(draw, n, ss, g, surd):
    k = draw(st.sampled_from(["sq", "cs", "cs", "mono", "cp", "cscs", "mul"]))
    sq = ["^", draw(_form(n)), draw(st.sampled_from([2, 2, 2, 4]))]
    mono = ["*"] + [["^", ["s", draw(st.integers(0, n - 1))], draw(st.sampled_from([1, 1, 1, 2, 2, 2, 3, 3, 3, 10, 12, 20, 23]))] for _ in range(draw(st.integers(1, 2)))]
    if k == "sq":
        b = sq
    elif k == "mono":
        b = mono
    elif k == "cs":
        b = ["cs", draw(st.sampled_from([sq, ["*", mono, sq], mono])), ss, g]
    elif k == "cp":
        b = ["cp", draw(st.sampled_from([mono, ["+", mono, ["s", 0]], draw(_form(n))])), ss, g]
    elif k == "cscs":
        b = ["cs", ["*", mono, ["^", ["+", ["s", 0], ["*", ["n", -1, 1], ["cs", ["s", 0], ss, g]]], 2]], ss, g]
    else:
        b = ["*", ["cs", mono, ss, g], draw(st.sampled_from([sq, ["cp", ["+", ["s", 0], ["s", 1]], ss, g]]))]
    c = [draw(st.integers(1, 30)), draw(st.sampled_from([1, 1, 1, 2, 3, 7, 12]))]
    r = draw(st.sampled_from([[1, 2], [2, 2], [3, 2], [6, 2], [2, 3], [5, 3]])) if surd else [1, 2]
    return {"c": c, "r": r, "b": b, "neg": draw(st.sampled_from([False] * 9 + [True]))}


@st.composite
def _case(draw):
    n = draw(st.sampled_from([2, 3, 3, 3, 4]))
    ss = list(range(n))
    rot = [list(range(1, n)) + [0]]
    g = draw(st.sampled_from([rot, rot, rot, rot + [[1, 0] + list(range(2, n))]])) if n < 4 else rot
    surd = draw(st.sampled_from([False, False, False, True]))
    den = draw(st.sampled_from([None, None, "cs", "sum", "prod", "num", "cspow"]))
    return {"n": n, "ss": ss, "g": g, "terms": draw(st.lists(_term(n, ss, g, surd), min_size=1, max_size=4)), "surd": surd, "den": den,
            "off": draw(st.sampled_from([None, None, None, None, [1, 1], [1, 10**6], [-2, 3]])), "together": draw(st.booleans()),
            "same": draw(st.booleans()), "pull": draw(st.booleans()), "base": draw(st.sampled_from([False, False, True]))}


def setup(case, ctx):
    """expression, value function, gens, elements, problem polynomial or None"""
    n, ss, g = case["n"], case["ss"], case["g"]
    syms = cyc.SYMS[:n]
    els = cyc.elements(g)
    F = evalx.MP if case["surd"] else evalx.Mod
    parts = []
    for t in case["terms"]:
        w = sp.Rational(*t["c"]) * sp.Integer(t["r"][0])**sp.Rational(1, t["r"][1]) * (-1 if t["neg"] else 1)
        parts.append((w, t))
    D = {None: None, "cs": ["cs", ["s", 0], ss, g], "sum": ["+"] + [["^", ["s", i], 2] for i in ss], "prod": ["*", ["s", 0], ["+", ["s", 1], ["s", 0]]],
         "num": ["n", 6, 1], "cspow": ["^", ["cs", ["*", ["s", 0], ["s", 1]], ss, g], 2]}[case["den"]]

    def value(p):
        env = [p[s] for s in cyc.SYMS]
        r = F.rat(0, 1)
        for w, t in parts:
            v = F.mul(F.rat(*t["c"]), cyc.value(t["b"], env, F))
            if t["r"][0] != 1:
                v = F.mul(v, F.root(F.rat(t["r"][0], 1), 1, t["r"][1]))
            r = F.add(r, F.mul(v, F.rat(-1 if t["neg"] else 1, 1)))
        return r
    body = [w * cyc.build(t["b"], CyclicSum, CyclicProduct) for w, t in parts]
    if D is not None:
        d = cyc.build(D, CyclicSum, CyclicProduct)
        d2 = sp.expand(d.doit())
        if case["pull"]:
            e = sp.Mul(sp.Add(*[b * d2 for b in body]), sp.Pow(d, -1))
        else:
            e = sp.Add(*[b * d2 / d for b in body])
    else:
        e = sp.Add(*body)
    pts = []
    for p in (evalx.prime_points(cyc.SYMS, 2, salt=3) if F is evalx.Mod else [{s: mpmath.mpf(2 + 3 * k + i) / (7 + i) for i, s in enumerate(cyc.SYMS)} for k in range(2)]):
        pts.append(p)
    poly = None
    if sp.count_ops(e) < 400:
        poly = sp.Poly(sp.expand(sp.Add(*[w * _plain(t["b"]) for w, t in parts])), *syms, **({"extension": True} if case["surd"] else {}))
        if poly.total_degree() > (14 if case["surd"] else 60):
            ctx.skip("large")
    if poly is None:
        ctx.skip("large")
    prob = poly
    if case["off"]:
        prob = poly + sp.Rational(*case["off"]) * syms[0]
    ctx.label("den " + str(case["den"]), "surd" if case["surd"] else "rat", "off" if case["off"] else "equal", "group%d" % len(els))
    ctx.nontrivial(len(sp.Add.make_args(e)) > 1 or case["den"] not in (None, "num"))
    if e.is_number:
        ctx.skip("constant")
    return e, value, syms, els, prob, F, pts


_plain_cache = {}


def _plain(t):
    k = t[0]
    if k in ("s", "n"):
        return cyc.build(t, None, None)
    if k in ("+", "*"):
        return (sp.Add if k == "+" else sp.Mul)(*[_plain(x) for x in t[1:]])
    if k == "^":
        return _plain(t[1])**t[2]
    b = _plain(t[1])
    im = [b.xreplace({cyc.SYMS[t[2][i]]: cyc.SYMS[t[2][g[i]]] for i in range(len(t[2]))}) for g in cyc.elements(t[3])]
    return sp.Add(*im) if k == "cs" else sp.Mul(*im)


def eq(F, a, b):
    if F is evalx.Mod:
        return a == b
    return abs(a - b) <= mpmath.mpf(10)**(-30) * (1 + abs(a) + abs(b))


def expr_value(e, p, F):
    return evalx.evaluate(e, p, F)


def make(case, e, prob, base=False):
    cls = Solution if base else SolutionSimple
    return cls(problem=prob, solution=e)


@CHECK.sub("operations", _case, quick=500, thorough=9000, shards=3, case_timeout=20, hang=True, rule="splitting, together, expanding, collecting, replacing, rewriting")
def operations(case, ctx):
    mpmath.mp.dps = 50
    warnings.simplefilter("ignore")
    e, value, syms, els, prob, F, pts = setup(case, ctx)
    sol = make(case, e, prob)
    want = [value(p) for p in pts]
    state = (sol.problem, sol.solution, dict(sol.ineq_constraints), dict(sol.eq_constraints))

    def same(x, what, w=want, at=pts):
        ctx.require(isinstance(x, sp.Expr) and not x.has(sp.nan, sp.zoo, sp.oo), lambda: "%s of %s is %r" % (what, e, x), "ops:" + what)
        ctx.require(all(eq(F, expr_value(x, p, F), v) for p, v in zip(at, w)), lambda: "%s changes the value: %s becomes %s" % (what, sp.srepr(e), sp.srepr(x)), "ops:" + what)
    same(sol.as_expr(), "as_expr")
    for tg in (True, False):
        num, den = sol.as_fraction(together=tg)
        ctx.require(all(eq(F, expr_value(num, p, F), F.mul(expr_value(den, p, F), v)) for p, v in zip(pts, want)),
                    lambda: "as_fraction(together=%s) of %s is %s over %s" % (tg, sp.srepr(e), num, den), "ops:as_fraction")
    c = sol.copy()
    num, den = c.as_fraction(inplace=True)
    same(c.solution, "as_fraction inplace")
    same(sol.numerator / sol.multiplier, "numerator over multiplier")
    same(sol.doit().solution, "doit")
    ctx.require(not sol.doit().solution.has(CyclicExpr), lambda: "doit of %s leaves cyclic expressions" % e, "ops:doit")
    same(sol.signsimp().solution, "signsimp")
    same(sol.collect(syms[0]).solution, "collect")
    same(sol.rewrite_symmetry(syms, PermutationGroup(*[Permutation(x) for x in case["g"]])).solution, "rewrite_symmetry")
    k = case["terms"][0]["c"][0] % 3
    rule = [{syms[0]: syms[1], syms[1]: syms[0]}, {syms[0]: syms[0] + syms[1]}, dict(zip(syms, syms[1:] + syms[:1]))][k]
    moved = [dict(p, **{}) for p in pts]
    for p, q in zip(moved, pts):
        for s, r in rule.items():
            p[s] = expr_value(r, q, F)
    ctx.require(all(eq(F, expr_value(sol.xreplace(rule).solution, q, F), value(p)) for p, q in zip(moved, pts)),
                lambda: "xreplace %s of %s gives %s" % (rule, sp.srepr(e), sol.xreplace(rule).solution), "ops:xreplace")
    one = [dict(p, **{}) for p in pts]
    for p in one:
        p[syms[-1]] = F.rat(1, 1)
    w1 = None
    try:
        w1 = [value(p) for p in one]
    except evalx.DivZero:
        pass
    if w1 is not None:
        d = sol.dehomogenize(syms[-1])
        ctx.require(syms[-1] not in d.solution.free_symbols, lambda: "dehomogenize of %s leaves %s in %s" % (sp.srepr(e), syms[-1], d.solution), "ops:dehomogenize")
        same(d.solution, "dehomogenize", w1, one)
        pe = d.problem.as_expr() if hasattr(d.problem, "as_expr") else sp.sympify(d.problem)
        ctx.require(sp.expand(pe - prob.as_expr().subs(syms[-1], 1)) == 0, lambda: "dehomogenize changes the problem %s to %s" % (prob, d.problem), "ops:dehomogenize")
        ctx.require(sol.dehomogenize().solution == e, "dehomogenize without a variable", "ops:dehomogenize")
    for tg in (True, False):
        for cn in (True, False):
            q = sol.as_eq(together=tg, cancel=cn)
            for p, v in zip(pts, want):
                pv = expr_value(prob.as_expr(), p, F)
                l, r = expr_value(q.lhs, p, F), expr_value(q.rhs, p, F)
                ctx.require(eq(F, F.mul(l, v), F.mul(r, pv)), lambda: "as_eq(%s, %s) of %s is %s" % (tg, cn, e, q), "ops:as_eq")
    ctx.require((sol.problem, sol.solution, dict(sol.ineq_constraints), dict(sol.eq_constraints)) == state, lambda: "the solution object changed: %s" % sol.solution, "ops:mutated")
    exact = prob == prob.__class__(sp.expand(_total(case)), *prob.gens) if not case["surd"] else None
    flag = sol.is_equal
    if exact is not None:
        ctx.require(bool(flag) == exact, lambda: "%s for %s is reported equal: %s" % (e, prob, flag), "ops:is_equal")
    elif case["off"]:
        ctx.require(not flag, lambda: "%s for %s is reported equal" % (e, prob), "ops:is_equal")


def _total(case):
    return sp.Add(*[sp.Rational(*t["c"]) * (-1 if t["neg"] else 1) * sp.Integer(t["r"][0])**sp.Rational(1, t["r"][1]) * _plain(t["b"]) for t in case["terms"]])


@CHECK.sub("printing", _case, quick=700, thorough=12000, shards=3, case_timeout=20, rule="plain text, formatted text and LaTeX read back")
def printing(case, ctx):
    mpmath.mp.dps = 50
    warnings.simplefilter("ignore")
    e, value, syms, els, prob, F, pts = setup(case, ctx)
    want = [value(p) for p in pts]
    sol = make(case, e, prob, case["base"])
    order = [s.name for s in syms]
    before, glob = sp.srepr(sol.solution), str(sol.solution)
    texts = [("txt", "str_txt", lambda: sol.str_txt), ("formatted", "str_formatted", lambda: sol.str_formatted), ("latex", "str_latex", lambda: sol.str_latex)]
    fe = sp.Symbol("f")
    if not case["base"]:
        for m in ("txt", "formatted", "latex"):
            for tg, cn in ((True, True), (case["together"], False)):
                texts.append((m, "to_string(%s)" % m, lambda m=m, tg=tg, cn=cn: sol.to_string(mode=m, together=tg, cancel=cn)))
    first = {}
    for rnd in range(2):
        for i, (mode, name, get) in enumerate(texts):
            s = get()
            ctx.require(isinstance(s, str), lambda: "%s is %r" % (name, s), "print:type")
            if rnd:
                ctx.require(first[i] == s, lambda: "%s of %s is not repeatable: %r then %r" % (name, e, first[i], s), "print:repeat")
                continue
            first[i] = s
            try:
                l, sign, r = printed.read(s, mode, order)
            except printed.Bad as ex:
                ctx.fail("%s of %s is %r, which cannot be read: %s" % (name, sp.srepr(e), s, ex), "print:" + name)
            for p, v in zip(pts, want):
                env = {x.name: p[x] for x in syms}
                pv = expr_value(prob.as_expr(), p, F)
                if "to_string" in name:
                    lv = printed.value(l, env, F, order, els)
                    rv = printed.value(r, env, F, order, els)
                    ok = eq(F, F.mul(lv, v), F.mul(rv, pv))
                else:
                    lv = printed.value(l, env, F, order, els, v)
                    rv = printed.value(r, env, F, order, els)
                    ok = eq(F, lv, rv)
                ctx.require(ok, lambda: "%s of %s is %r, which denotes something else" % (name, sp.srepr(e), s), "print:" + name)
            if "to_string" not in name and case["off"]:
                ctx.require(sign != "=", lambda: "%s presents %s as exactly equal to %s: %r" % (name, e, prob, s), "print:exact")
    ctx.require(sp.srepr(sol.solution) == before, "printing changed the solution", "print:mutated")
    ctx.require(str(sol.solution) == glob, lambda: "printing changed how expressions are shown: %s became %s" % (glob, sol.solution), "print:global")
