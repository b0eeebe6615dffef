"""C09: rewriting symmetric notation preserves the value."""
import itertools

from hypothesis import strategies as st
import sympy as sp
from sympy.combinatorics import Permutation, PermutationGroup
from triples.utils.expression import CyclicProduct, CyclicSum, is_cyclic_expr, rewrite_symmetry
from triples.utils.expression.cyclic import CyclicExpr

from .. import cyc, evalx, gen
from ..core import Check

CHECK = Check("C09", rule="expression trees with nested cyclic sums/products over random groups, rewritten with respect to a requested "
              "tuple of variables and group (sub- and supergroups, conjugates, unrelated groups); the value is computed from the "
              "definition of the original tree in a prime field. Non-trivial: the tree has a cyclic node whose group is not the "
              "requested one, or two nested cyclic nodes.")
SYMS = cyc.SYMS


@st.composite
def _case(draw):
    n = draw(st.sampled_from([2, 3, 3, 3, 4]))
    ss = draw(st.one_of(st.just(list(range(n))), st.permutations(list(range(n))).map(list), st.permutations(list(range(cyc.NS))).map(lambda p: list(p[:n]))))
    g = draw(gen.named_group(n))
    own = st.one_of(gen.named_group(n), gen.named_group(n), st.just(g), st.just([list(range(1, n)) + [0], [1, 0] + list(range(2, n))]))
    body = cyc.plain(5)

    def node(b):
        return st.tuples(st.sampled_from(["cs", "cp"]), b, st.just(ss), own).map(list)
    one = draw(st.sampled_from([0, 0, 1, 2, 3]))
    if one == 0:
        t = draw(node(body))
    elif one == 1:
        t = draw(cyc.tree(5))
    elif one == 2:
        t = draw(node(st.tuples(st.sampled_from(["+", "*"]), node(body), body).map(list)))
    else:
        t = ["+", draw(node(body)), ["*", draw(node(body)), draw(body)]]
    k = draw(st.sampled_from([1, 1, 1, 2, -1]))
    if k != 1:
        t = ["^", t, k]
    return {"t": t, "ss": ss, "g": g}


def action(symbols, els):
    """the set of substitutions a group over a tuple of symbols stands for"""
    return {frozenset((str(symbols[i]), str(symbols[j])) for i, j in enumerate(g) if i != j) for g in els}


def _orders(t, out):
    if t[0] in ("cs", "cp"):
        out.append(len(cyc.elements(t[3])))
        _orders(t[1], out)
    elif t[0] in ("+", "*"):
        for x in t[1:]:
            _orders(x, out)
    elif t[0] == "^":
        _orders(t[1], out)
    return out


@CHECK.sub("rewrite", _case, quick=1600, thorough=40000, shards=5, case_timeout=10, hang=True, rule="one expression rewritten for a requested group")
def rewrite(case, ctx):
    t = case["t"]
    if cyc.group_order(t) > 72:
        ctx.skip("large")
    symbols = tuple(SYMS[i] for i in case["ss"])
    els = cyc.elements(case["g"])
    perm = PermutationGroup(*[Permutation(p) for p in case["g"]])
    e = cyc.build(t, CyclicSum, CyclicProduct)
    pts = evalx.prime_points(SYMS, 2, salt=9)
    try:
        want = [cyc.value(t, [p[s] for s in SYMS]) for p in pts]
    except evalx.DivZero:
        ctx.skip("singular")
    if e.has(sp.zoo, sp.nan):
        ctx.skip("singular")
    r = rewrite_symmetry(e, symbols, perm)
    nodes = e.atoms(CyclicExpr)
    act = action(symbols, els)
    ctx.label("group%d" % len(els), "nodes%d" % len(nodes), "depth%d" % cyc.cyc_depth(t))
    ctx.nontrivial(any(action(x.args[1], evalx.group_of(x.args[2])) != act for x in nodes) or cyc.cyc_depth(t) > 1)
    try:
        got = [evalx.evaluate(r, p) for p in pts]
    except (evalx.DivZero, ZeroDivisionError):
        ctx.fail("%s rewritten for %s, %s is singular: %s" % (e, symbols, case["g"], r), "rewrite:value")
    except evalx.Unsupported:
        # a radical, say, where the expression was rational: compared at integer points of all signs
        for p in ([2, -3, 5, -7, 11, -1], [-1, 4, -9, 1, -2, 6], [3, 7, -20, 1, 5, -8]):
            d = e.doit().xreplace({s: sp.Integer(x) for s, x in zip(SYMS, p)}) - r.doit().xreplace({s: sp.Integer(x) for s, x in zip(SYMS, p)})
            ctx.require(not d.is_number or d.has(sp.zoo, sp.nan) or abs(sp.N(d, 60)) < 1e-30,
                        lambda: "%s rewritten for %s, %s is %s, of a different value" % (sp.srepr(e), symbols, case["g"], sp.srepr(r)), "rewrite:value")
        ctx.label("irrational form")
        return
    ctx.require(got == want, lambda: "%s rewritten for %s, %s is %s, of a different value" % (sp.srepr(e), symbols, case["g"], sp.srepr(r)), "rewrite:value")
    for x in r.atoms(CyclicExpr):
        ctx.require(action(x.args[1], evalx.group_of(x.args[2])) == act,
                    lambda: "%s rewritten for %s, %s still has a cyclic expression over %s, %s" % (sp.srepr(e), symbols, case["g"], x.args[1], x.args[2]), "rewrite:left")
    ctx.require(rewrite_symmetry(e, symbols, perm) == r, "not repeatable", "rewrite:repeat")


# ---------------------------------------------------------------- invariance test used by the rewriting
@CHECK.sub("invariance", _case, quick=700, thorough=15000, shards=2, case_timeout=10, hang=True, rule="expressions declared invariant are invariant")
def invariance(case, ctx):
    t = case["t"]
    if cyc.group_order(t) > 72:
        ctx.skip("large")
    symbols = tuple(SYMS[i] for i in case["ss"])
    perm = PermutationGroup(*[Permutation(p) for p in case["g"]])
    e = cyc.build(t, CyclicSum, CyclicProduct)
    if e.has(sp.zoo, sp.nan):
        ctx.skip("singular")
    if not is_cyclic_expr(e, symbols, perm):
        ctx.label("not declared")
        return
    ctx.label("declared")
    ctx.nontrivial(bool(e.free_symbols & set(symbols)))
    p = evalx.prime_points(SYMS, 1, salt=5)[0]
    try:
        v = evalx.evaluate(e, p)
        for g in cyc.elements(case["g"]):
            q = dict(p)
            q.update({symbols[i]: p[symbols[g[i]]] for i in range(len(symbols))})
            ctx.require(evalx.evaluate(e, q) == v, lambda: "%s is declared invariant under %s on %s" % (e, case["g"], symbols), "invariance")
    except evalx.DivZero:
        ctx.skip("singular")


# ---------------------------------------------------------------- restriction of groups
@st.composite
def _restrict(draw):
    n = draw(st.integers(2, 6))
    inds = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True).map(sorted))
    rest = [i for i in range(n) if i not in inds]
    gens = []
    for _ in range(draw(st.integers(1, 3))):
        a, b = draw(st.permutations(inds)), draw(st.permutations(rest))
        p = list(range(n))
        for i, j in zip(inds, a):
            p[i] = j
        for i, j in zip(rest, b):
            p[i] = j
        gens.append(p)
    return {"n": n, "inds": inds, "g": gens}


@CHECK.sub("restrict", _restrict, quick=600, thorough=10000, case_timeout=10, hang=True, rule="restriction of a group to an invariant subset")
def restrict(case, ctx):
    f = ctx.helper("triples.utils.expression.cyclic", "_project_perm_group")
    inds, n = case["inds"], case["n"]
    r = f(PermutationGroup(*[Permutation(p) for p in case["g"]]), inds)
    els = evalx.close_group([tuple(p) for p in case["g"]])
    want = {tuple(inds.index(g[i]) for i in inds) for g in els}
    ctx.nontrivial(len(want) > 1 and len(inds) < n)
    got = set(evalx.close_group([tuple(p.array_form) + tuple(range(len(p.array_form), len(inds))) for p in r.generators]))
    got = {g[:len(inds)] for g in got}
    ctx.require(got == want, lambda: "restricting %s to %s gives %s, not %s" % (case["g"], inds, sorted(got), sorted(want)), "restrict")
