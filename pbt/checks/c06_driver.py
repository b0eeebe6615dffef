"""C06: the driver answers the problem that was posed."""
import itertools

from hypothesis import strategies as st
import sympy as sp

from .. import evalx, gen, ineq, prob
from ..cert import _expand_cyclic, check_certificate, names
from ..core import Check

CHECK = Check("C06", rule="problems with planted certificates, constraints and names, documented inequalities and degenerate inputs, posed in many "
              "equivalent ways with arbitrary method orders and configurations. Oracles: the methods called one by one; exact evaluation of the "
              "certificate over a prime field against the problem as posed; the exact set of symbols and names allowed. Non-trivial: some "
              "method answered.")

METHODS = ["StructuralSOS", "LinearSOS", "SDPSOS", "SymmetricSOS"]


def _method(name):
    if name == "LinearSOS":
        from triples.core.linsos import LinearSOS as f
    elif name == "SDPSOS":
        from triples.core.sdpsos import SDPSOS as f
    elif name == "SymmetricSOS":
        from triples.core.symsos import SymmetricSOS as f
    else:
        from triples.core import StructuralSOS as f
    return f


def _same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a.items()) == list(b.items())
    return a == b


def examine(ctx, sol, f, g, h, target, syms, back, what, methods=METHODS):
    """The answer carries the posed problem, uses the given names only and equals the problem."""
    ctx.require(sol.problem == f and isinstance(sol.problem, sp.Poly) == isinstance(f, sp.Poly), lambda: "%s: the answer is for %s instead of %s" % (what, sol.problem, f), "fields:problem")
    ctx.require(_same(sol.ineq_constraints, g), lambda: "%s: the answer has inequality constraints %s instead of %s" % (what, sol.ineq_constraints, g), "fields:ineq")
    ctx.require(_same(sol.eq_constraints, h), lambda: "%s: the answer has equality constraints %s instead of %s" % (what, sol.eq_constraints, h), "fields:eq")
    ctx.require(sol.method in methods, lambda: "%s: method %r is none of %s" % (what, sol.method, methods), "fields:method")
    ctx.require(sol.time >= 0, lambda: "%s: time %s" % (what, sol.time), "fields:time")
    e = sol.solution
    given = set()
    for c in (g, h):
        for v in (c.values() if isinstance(c, dict) else c):
            given |= sp.sympify(v).atoms(sp.core.function.AppliedUndef)
    extra = e.atoms(sp.core.function.AppliedUndef) - given
    ctx.require(not extra, lambda: "%s: the certificate %s mentions %s" % (what, e, extra), "names")
    check_certificate(ctx, e, target, syms, back, what)
    ctx.require(bool(sol.is_equal) is True, lambda: "%s: the exact certificate %s is not marked equal" % (what, e), "flag")
    ctx.require("≈" not in sol.str_txt and "=" in sol.str_txt, lambda: "%s: printed as %s" % (what, sol.str_txt), "flag")


# ---------------------------------------------------------------- method order and configurations
def _order_case():
    cfgs = st.dictionaries(st.sampled_from(METHODS), st.sampled_from([{}, {"no_such_option": 1}, "opt"]), max_size=3)
    return st.tuples(prob.problem(ns=(1, 2, 2, 3, 3), degrees={1: 4, 2: 4, 3: 4}, max_terms=2), st.one_of(st.permutations(METHODS), st.lists(st.sampled_from(METHODS), max_size=3)),
                     st.booleans(), cfgs, st.sampled_from(["given", "given", "none", "default"])).map(
        lambda t: dict(t[0], order=list(t[1]), false=t[2], cfg=t[3], how=t[4]))


OPTS = {"LinearSOS": {"lift_degree_limit": 0, "quad_diff_order": 2}, "SDPSOS": {"verbose": False, "degree_limit": 4}, "StructuralSOS": {}, "SymmetricSOS": {}}


@CHECK.sub("order", _order_case, quick=360, thorough=8000, shards=8, case_timeout=60,
           rule="the driver with a method order and per-method options against the methods called one by one")
def order(case, ctx):
    import inspect
    from triples.core import sum_of_squares, METHOD_ORDER
    P = prob.build(case)
    if not P.f:
        ctx.skip("degenerate")
    if case["false"]:
        if prob.falsify(P, sp.Rational(1, 7)) is None or not P.f:
            ctx.skip("not falsifiable")
    f, g, h, back, _, _ = prob.pose(P)
    cfg = {}
    for m, v in case["cfg"].items():
        if v == "opt":
            ok = inspect.signature(_method(m)).parameters
            v = {k: x for k, x in OPTS[m].items() if k in ok}
        cfg[m] = v
    order, kw = case["order"], {}
    if case["how"] == "given":
        kw = {"method_order": list(order), "configs": dict(cfg)}
    elif case["how"] == "none":
        kw, order, cfg = {"method_order": None, "configs": None}, list(METHOD_ORDER), {}
    else:
        order, cfg = list(METHOD_ORDER), {}
    ctx.label("order:%d" % len(order), case["how"], "false" if case["false"] else "true")
    want, bad = None, None
    for m in order:
        try:
            want = _method(m)(f, g, h, **cfg.get(m, {}))
        except Exception as e:
            if "no_such_option" in cfg.get(m, {}) and isinstance(e, TypeError):
                bad = m
                break
            ctx.label("raised " + m)  # decided by the checks of the method
            return
        if want is not None:
            break
    # the driver may not reach the method with the invalid option unless everything before it failed
    if bad is not None:
        ctx.nontrivial()
        ctx.label("bad option reached")
        try:
            sum_of_squares(f, g, h, **kw)
        except TypeError:
            return
        ctx.fail("the option given for %s in order %s was not passed on" % (bad, order), "order:options")
    sol = sum_of_squares(f, g, h, **kw)
    if want is None:
        ctx.require(sol is None, lambda: "no method of %s answers %s, but the driver returns %s" % (order, prob.target(P), sol.solution), "order:none")
        ctx.label("none")
        return
    ctx.nontrivial()
    ctx.label("answered by " + m, "position %d" % order.index(m))
    ctx.require(sol is not None, lambda: "%s answers %s, but the driver with %s does not" % (m, prob.target(P), order), "order:lost")
    ctx.require(sol.method == m, lambda: "in the order %s the first method that answers %s is %s, but the answer is by %s" % (order, prob.target(P), m, sol.method), "order:method")
    examine(ctx, sol, f, g, h, prob.target(P), P.syms, back, "driver", [m])


# ---------------------------------------------------------------- equivalent statements
NAMESETS = [["a", "b", "c", "d"], ["t", "x", "y", "z"], ["_G0", "_t", "t", "t0"], ["x_1", "G", "_F", "_x"], ["p", "q", "r", "u"]]


def _posed_case():
    return st.fixed_dictionaries({
        "p": prob.problem(ns=(1, 2, 2, 3, 3, 3), degrees={1: 5, 2: 5, 3: 4}, max_terms=2),
        "names": st.integers(0, len(NAMESETS) - 1), "f": st.sampled_from(["expr", "poly", "polyextra", "domain", "unexpanded", "cyclic"]),
        "g": st.sampled_from(["list", "dict", "polylist", "polydict", "tuple"]), "name": st.sampled_from(["self", "sym", "clash", "func", "func0", "number"]),
        "mult": st.sampled_from(["1", "1", "3/2", "square"]), "extra": st.sampled_from(["", "", "unused", "trivial", "duplicate"]),
        "order": st.integers(0, 5), "solver": st.sampled_from(["sum_of_squares"] * 3 + METHODS)})


@CHECK.sub("restated", _posed_case, quick=420, thorough=12000, shards=8, case_timeout=60,
           rule="the same problem as expression or polynomial (extra generators, larger domains, unexpanded), with constraints as lists, tuples or "
                "dictionaries, scaled, squared, repeated or unused, with names that clash with internal ones")
def restated(case, ctx):
    P = prob.build(case["p"])
    if not P.f:
        ctx.skip("degenerate")
    n = P.n
    syms = [sp.Symbol(s) for s in NAMESETS[case["names"]][:n]]
    extra = sp.Symbol("w")
    target = ineq.to_expr(P.f, syms)
    f = target
    how = case["f"]
    if how == "poly":
        f = sp.Poly(target, *syms)
    elif how == "polyextra":
        f = sp.Poly(target, *(syms[::-1] + [extra]))
    elif how == "domain":
        f = sp.Poly(target, *syms, domain="QQ<sqrt(2)>")
    elif how == "unexpanded":
        f = sp.factor(target) + sp.Mul(syms[0], syms[0] + 1, evaluate=False) - sp.expand(syms[0] * (syms[0] + 1))
    elif how == "cyclic" and n == 3:
        from triples.utils import CyclicSum
        body = CyclicSum(syms[0]**2 * syms[1], tuple(syms))
        f = target + body - _expand_cyclic(body)
    back = {}

    def dress(polys, which):
        out = []
        for i, p in enumerate(polys):
            k = ineq.to_expr(p, syms)
            if case["mult"] == "3/2":
                k = sp.Rational(3, 2) * k * (1 if which == "g" else -1)
            elif case["mult"] == "square" and which == "g":
                k = sp.expand(k * (syms[0] + 2 * syms[-1])**2) if case["p"]["hom"] else k * (syms[0] - 3)**2
            out.append(k)
        if case["extra"] == "unused" and which == "g":
            out.append(extra)
        elif case["extra"] == "trivial":
            out.append(sp.Integer(2 if which == "g" else 0))
        elif case["extra"] == "duplicate" and out and which == "g":
            out.append(2 * out[0])
        r = case["order"] % max(len(out), 1)
        out = out[r:] + out[:r]
        if case["g"] in ("list", "tuple", "polylist"):
            if case["g"] == "polylist":
                out = [sp.Poly(k, *(list(syms) + ([extra] if k.has(extra) else []))) for k in out]
            return tuple(out) if case["g"] == "tuple" else out
        d = {}
        for i, k in enumerate(out):
            nm = case["name"]
            if nm == "self":
                v = k
            elif nm == "sym":
                v = sp.Symbol("%s%d" % (which, i))
            elif nm == "clash":
                v = sp.Symbol([x for x in ("t", "_G0", "x", "t0", "a", "k", "s", "v", "u", "m1", "m2", "m3") if sp.Symbol(x) not in syms][i] + ("" if which == "g" else "h"))
            elif nm == "func":
                v = sp.Function("G" if which == "g" else "H")(*(tuple(syms) + (sp.Integer(i),)))
            elif nm == "func0":
                v = sp.Function("_G%d" % i if which == "g" else "_H%d" % i)(*[s for s in syms if k.has(s)] or [sp.Integer(i)])
            else:
                v = sp.Integer(3) * sp.Symbol("%s%d" % (which, i))
            if v != k:
                # a name stands for its constraint: 3*u for k means u is k/3
                if isinstance(v, sp.Mul):
                    back[v.args[1]] = k / v.args[0]
                else:
                    back[v] = k
            d[sp.Poly(k, *(list(syms) + ([extra] if k.has(extra) else []))) if case["g"] == "polydict" else k] = v
        return d
    g, h = dress(P.g, "g"), dress(P.h, "h")
    if case["g"] in ("dict", "polydict") and (len(set(map(str, list(g.values()) + list(h.values())))) < len(g) + len(h)):
        ctx.skip("names repeated")
    from triples.core import sum_of_squares
    name = case["solver"]
    sol = (sum_of_squares if name == "sum_of_squares" else _method(name))(f, g, h)
    ctx.label(how, case["g"], "name:" + case["name"], "mult:" + case["mult"], "extra:" + case["extra"], name)
    if sol is None:
        ctx.label("none")
        return
    ctx.nontrivial()
    ctx.label("answered " + name, "answered " + how, "answered by " + sol.method)
    allowed = list(syms) + ([extra] if (case["extra"] == "unused" or how == "polyextra") else [])
    examine(ctx, sol, f, g, h, target, allowed, back, name, METHODS if name == "sum_of_squares" else [name])


# ---------------------------------------------------------------- degenerate problems
def _degenerate_all(tier):
    out = []
    for f in ("0", "0poly", "3", "3poly", "-1", "-1poly", "1/2", "sqrt2", "1-sqrt2", "x-x", "x0", "surd", "x", "x2", "-x2", "xy"):
        for g in ([], ["x"], ["x", "y", "z"], ["1"], ["0"], ["-1"], ["x", "x"], ["x2"], ["-x2"], ["{}"], ["x:y"], ["yz"]):
            for h in ([], ["0"], ["x"], ["1"], ["x2"], ["xy"]):
                for s in ["sum_of_squares"] + METHODS:
                    out.append({"f": f, "g": g, "h": h, "s": s})
    if tier == "quick":
        out = [c for i, c in enumerate(out) if c["s"] == "sum_of_squares" and i % 3 == 0 or i % 17 == 0]
    return out


X, Y, Z = sp.symbols("x y z")
VAL = {"0": sp.Integer(0), "0poly": sp.Poly(0, X, Y, Z), "3": sp.Integer(3), "3poly": sp.Poly(3, X, Y), "-1": sp.Integer(-1), "-1poly": sp.Poly(-1, X, Y, Z),
       "1/2": sp.Rational(1, 2), "sqrt2": sp.sqrt(2), "1-sqrt2": 1 - sp.sqrt(2), "x-x": sp.Add(X, -X, evaluate=False), "x0": sp.Poly(X**2 + 1, X, Y, Z),
       "surd": sp.Poly(X**2 + sp.sqrt(2) * X * Y + Y**2, X, Y), "x": X, "y": Y, "z": Z, "x2": X**2, "-x2": -X**2, "xy": X * Y, "1": sp.Integer(1), "yz": Y * Z}
NEG = {"-1", "-1poly", "1-sqrt2"}


@CHECK.sub("degenerate", None, enumerated=_degenerate_all, case_timeout=60, hang=True, shards=8,
           rule="zero, constant and monomial problems with empty, constant, repeated and zero constraints through every method: never an exception, "
                "and every answer is an exact certificate")
def degenerate(case, ctx):
    from triples.core import sum_of_squares
    f = VAL[case["f"]]
    back = {}
    if case["g"] == ["{}"]:
        g = {}
    elif case["g"] == ["x:y"]:
        g = {X: sp.Symbol("y")}
        back = {sp.Symbol("y"): X}
        if f.has(Y) or any(VAL[k].has(Y) for k in case["h"]):
            ctx.skip("the name is a variable of the problem")
    else:
        g = [VAL[k] for k in case["g"]]
    h = [VAL[k] for k in case["h"]]
    name = case["s"]
    sol = (sum_of_squares if name == "sum_of_squares" else _method(name))(f, g, h)
    ctx.label(name, "f:" + case["f"])
    if sol is None:
        ctx.label("none")
        return
    ctx.nontrivial()
    target = f.as_expr() if isinstance(f, sp.Poly) else f
    e = sp.sympify(sol.solution)
    ctx.require(isinstance(e, sp.Expr) and not e.has(sp.nan, sp.zoo, sp.oo), lambda: "%s: %s certified by %s" % (name, f, e), "degenerate:value")
    examine(ctx, sol, f, g, h, target, [X, Y, Z], back, name, METHODS if name == "sum_of_squares" else [name])
    if case["f"] in NEG and case["g"] in ([], ["x"], ["x", "y", "z"], ["1"], ["0"], ["x", "x"], ["x2"], ["{}"]) and case["h"] in ([], ["0"]):
        ctx.fail("%s: %s certified by %s" % (name, f, e), "degenerate:negative")
