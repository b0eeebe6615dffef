"""Named constraints and the identity oracle shared by the prover checks."""
import sympy as sp

from . import evalx, ineq


def constraints(kind, syms, acute=False):
    """(dict poly expr -> name, dict name -> expr)"""
    con, back = {}, {}
    if kind == "none":
        return con, back
    for i, s in enumerate(syms):
        if kind == "missing" and i == 0:
            continue
        e, name = s, s
        if kind == "func":
            name = sp.Function("F")(s)
        elif kind == "sym":
            name = sp.Symbol("u_%d" % i)
        elif kind == "scaled":
            e, name = (i + 2) * s, sp.Function("F")(s)
        elif kind == "cubed":
            e, name = s**3, sp.Symbol("v_%d" % i)
        con[e] = name
        if name != e:
            back[name] = e
    if acute:
        n = len(syms)
        for i in range(n):
            a, b, c = syms[i], syms[(i + 1) % n], syms[(i + 2) % n]
            e = b**2 + c**2 - a**2
            name = e if kind == "self" else sp.Function("T")(a)
            con[e] = name
            if name != e:
                back[name] = e
    return con, back


def names(i, n):
    return [sp.Symbol(x) for x in ineq.NAMES[i % len(ineq.NAMES)][:n]]


def _expand_cyclic(e):
    if type(e).__name__ in ("CyclicSum", "CyclicProduct"):
        body, syms, perm = e.args
        syms = list(syms)
        body = _expand_cyclic(body)
        terms = [body.xreplace({syms[i]: syms[g[i]] for i in range(len(syms))}) for g in evalx._elements(perm)]
        return sp.Add(*terms) if type(e).__name__ == "CyclicSum" else sp.Mul(*terms)
    if not e.args or isinstance(e, (sp.Symbol, sp.Rational)):
        return e
    return e.func(*[_expand_cyclic(x) for x in e.args])


def check_certificate(ctx, sol, target, syms, back, what):
    ctx.require(isinstance(sol, sp.Expr), lambda: "%s: not an expression: %r" % (what, sol))
    ctx.require(not sol.has(sp.nan, sp.zoo, sp.oo), lambda: "%s: ill-defined certificate %s" % (what, sol))
    if back:
        full = _expand_cyclic(sol).xreplace(back)
    else:
        full = sol
    extra = full.free_symbols - set(syms)
    ctx.require(not extra, lambda: "%s: certificate has unknown symbols %s: %s" % (what, extra, sol), "identity")
    d = evalx.differs(full, target, syms)
    ctx.require(not d, lambda: "%s: certificate %s differs from %s: %s" % (what, sol, target, d), "identity")
