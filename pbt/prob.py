"""Constrained polynomial problems with a planted certificate (and therefore a known truth).

A case is plain data.  `build` turns it into a Problem: a polynomial f, inequality constraints g >= 0 and
equality constraints h = 0 closed under the chosen permutation group, and a rational point satisfying all
of them.  f is built as a sum over the group of  c * (product of g's) * q^2  plus  h * q, so it is
nonnegative on the feasible set by construction; `falsify` subtracts just enough to make it negative at the
known feasible point."""
from fractions import Fraction

from hypothesis import strategies as st
import sympy as sp

from . import evalx, gen, ineq
from .cert import names as name_list

GROUPS = {1: ["id"], 2: ["id", "sym"], 3: ["id", "id", "cyc", "sym", "part"], 4: ["id", "cyc", "sym", "part"]}


# ---------------------------------------------------------------- strategies
def _terms(n, d, hom, k=3, lo=-3, hi=3):
    ex = gen.hom_exponents(n, d) if hom and n > 1 else (st.just([d]) if hom else gen.exponents(n, d))
    return st.lists(st.tuples(st.integers(lo, hi).filter(bool), ex).map(list), min_size=1, max_size=k)


def _ineq_con(n, hom):
    opts = [st.just(["vars"]), st.just(["vars"]), st.just(["vars"]),
            st.tuples(st.just("somevars"), st.integers(1, 2**n - 1)).map(list),
            st.tuples(st.just("form"), _terms(n, 1, hom, 3)).map(list),
            st.tuples(st.just("form"), _terms(n, 2, hom, 3)).map(list),
            st.tuples(st.just("negvar"), st.integers(0, n - 1)).map(list)]
    if n >= 3:
        opts.append(st.just(["tri"]))
    if not hom:
        opts += [st.just(["box"]), st.just(["ball"])]
    return st.one_of(*opts)


def _eq_con(n, hom):
    opts = [st.just(["sum"]), st.tuples(st.just("form"), _terms(n, 1, hom, 3)).map(list),
            st.tuples(st.just("form"), _terms(n, 2, hom, 3)).map(list)]
    if not hom:
        opts += [st.just(["prod"]), st.just(["sphere"]), st.just(["sum"])]
    return st.one_of(*opts)


NAMING = ["self", "self", "list", "func", "func", "sym", "scaled", "squared", "poly"]


def problem(ns=(2, 3), degrees=None, hom=None, eq=True, max_terms=3, groups=None, orthant=False):
    @st.composite
    def make(draw):
        n = draw(st.sampled_from(list(ns)))
        h = draw(st.booleans()) if hom is None else hom
        d = draw(st.integers(1, (degrees or {1: 6, 2: 6, 3: 4, 4: 3})[n] - (0 if h else 1)))
        case = {"n": n, "hom": h, "d": d, "group": draw(st.sampled_from(groups or GROUPS[n])),
                "x0": draw(st.lists(gen.rats(4, 3) if not (orthant or draw(st.booleans())) else st.tuples(st.integers(0, 5), st.integers(1, 3)).map(list),
                                    min_size=n, max_size=n)),
                "cons": draw(st.lists(_ineq_con(n, h), max_size=2)) if not orthant else [["vars"]],
                "eqs": draw(st.lists(_eq_con(n, h), max_size=1)) if eq and draw(st.integers(0, 2)) == 0 else [],
                "naming": draw(st.sampled_from(NAMING)), "names": draw(st.sampled_from([0, 0, 0, 1, 2, 5, 8])),
                "as_expr": draw(st.booleans())}
        nt = draw(st.integers(1, max_terms))
        terms = []
        for _ in range(nt):
            c = draw(st.one_of(st.integers(1, 6), st.tuples(st.integers(1, 9), st.integers(1, 7)).map(list)))
            use = draw(st.lists(st.integers(0, 7), max_size=2))
            deg = draw(st.integers(0, max(d // 2, 0)))
            kind = draw(st.sampled_from(["form", "diff", "mono"]))
            q = draw(_terms(n, deg, h, 3)) if kind == "form" else (
                draw(ineq._cform(n, deg)) if kind == "diff" and deg and n > 1 and h else draw(_terms(n, deg, h, 1, 1, 1)))
            terms.append([c, use, q, draw(gen.hom_exponents(n, 6)) if n > 1 else [6]])
        case["terms"] = terms
        case["eqterms"] = [[draw(st.integers(0, 3)), draw(_terms(n, 1, False, 2))] for _ in case["eqs"]]
        return case
    return make()


# ---------------------------------------------------------------- building
class Problem:
    pass


def _orbit(p, els):
    out = []
    for g in els:
        q = ineq.pact(p, g)
        if q and q not in out:
            out.append(q)
    return out


def _con_polys(c, n, hom):
    k = c[0]
    if k == "vars":
        return [ineq.pvar(i, n) for i in range(n)]
    if k == "somevars":
        return [ineq.pvar(i, n) for i in range(n) if c[1] >> i & 1]
    if k == "negvar":
        return [ineq.pscale(ineq.pvar(c[1], n), -1)]
    if k == "tri":
        return [ineq.padd(ineq.pvar((i + 1) % n, n), ineq.pvar((i + 2) % n, n), ineq.pscale(ineq.pvar(i, n), -1)) for i in range(n)]
    if k == "box":
        return [ineq.padd(ineq.pconst(1, n), ineq.pscale(ineq.pvar(i, n), -1)) for i in range(n)]
    if k == "ball":
        return [ineq.padd(ineq.pconst(1, n), *[ineq.pscale(ineq.ppow(ineq.pvar(i, n), 2, n), -1) for i in range(n)])]
    if k == "sum":
        return [ineq.padd(*[ineq.pvar(i, n) for i in range(n)])]
    if k == "prod":
        return [{(1,) * n: sp.Integer(1)}]
    if k == "sphere":
        return [ineq.padd(*[ineq.ppow(ineq.pvar(i, n), 2, n) for i in range(n)])]
    return [ineq.from_terms(c[1])]


def _power_sum(d, n):
    return ineq.padd(*[ineq.ppow(ineq.pvar(i, n), d, n) for i in range(n)])


def build(case):
    """None if the case degenerates."""
    n, hom, d = case["n"], case["hom"], case["d"]
    els = ineq.group_elements(case["group"], n)
    x0 = [gen.R(v) for v in case["x0"]]
    pts = []
    for g in els:
        y = [x0[g[i]] for i in range(n)]
        if y not in pts:
            pts.append(y)
    gs = []
    for c in case["cons"]:
        for p in _con_polys(c, n, hom):
            for q in _orbit(p, els):
                vals = [ineq.peval(q, y) for y in pts]
                if min(vals) < 0:
                    if max(vals) <= 0:
                        q = ineq.pscale(q, -1)
                    elif not hom:
                        q = ineq.padd(q, ineq.pconst(-min(vals), n))
                    else:
                        q = None
                if q and ineq.pdeg(q) > 0 and q not in gs:
                    gs.append(q)
    # the flips and shifts above are the same for a whole orbit except when signs differ between its members
    gs = [q for q in gs if all(r in gs for r in _orbit(q, els))]
    hs = []
    for c in case["eqs"]:
        for p in _con_polys(c, n, hom):
            p = ineq.pcyc(p, els) if p else {}
            if not p:
                continue
            v = ineq.peval(p, x0)
            if hom:
                s = _power_sum(ineq.pdeg(p), n)
                w = ineq.peval(s, x0)
                if v == 0:
                    q = p
                elif w != 0:
                    q = ineq.padd(ineq.pscale(p, w), ineq.pscale(s, -v))
                else:
                    continue
            else:
                q = ineq.padd(p, ineq.pconst(-v, n))
            if q and ineq.pdeg(q) > 0 and ineq.to_poly(q, name_list(0, n)).is_sqf:
                hs.append(q)
    f = {}
    used = []
    for c, use, q, pad in case["terms"]:
        q = ineq.from_terms(q)
        if not q:
            continue
        t = ineq.pscale(ineq.pmul(q, q), gen.R(c))
        for i in use:
            if gs and ineq.pdeg(t) + ineq.pdeg(gs[i % len(gs)]) <= d:
                t = ineq.pmul(t, gs[i % len(gs)])
                used.append(i % len(gs))
        if hom:
            r = d - ineq.pdeg(t)
            mono = [q for q in gs if len(q) == 1]
            single = [next(iter(q)) for q in mono if next(iter(q.values())) > 0 and sum(next(iter(q))) == 1]
            if r < 0 or not ineq.ishom(t):
                continue
            if r % 2 and not single:
                continue
            if r % 2:
                e = single[sum(pad) % len(single)]
                t = ineq.pmul(t, {e: sp.Integer(1)})
                r -= 1
            if r:
                half = list(pad)
                while sum(half) > r // 2:
                    j = max(range(n), key=lambda i: half[i])
                    half[j] -= 1
                half[0] += r // 2 - sum(half)
                t = ineq.pmul(t, {tuple(2 * x for x in half): sp.Integer(1)})
        f = ineq.padd(f, ineq.pcyc(t, els))
    for i, q in case["eqterms"]:
        if not hs:
            continue
        h = hs[i % len(hs)]
        q = ineq.from_terms(q)
        if hom:
            r = d - ineq.pdeg(h)
            if r < 0:
                continue
            q = _power_sum(r, n) if r else ineq.pconst(1, n)
        if q and ineq.pdeg(q) + ineq.pdeg(h) <= max(d, ineq.pdeg(h)):
            f = ineq.padd(f, ineq.pcyc(ineq.pmul(h, q), els))
    P = Problem()
    P.n, P.f, P.g, P.h, P.els, P.points, P.x0 = n, f, gs, hs, els, pts, x0
    P.case = case
    P.syms = name_list(case["names"], n)
    return P


def falsify(P, eps):
    """Subtract an invariant polynomial so that the value at the known feasible point is -eps; None if impossible."""
    n = P.n
    v = ineq.peval(P.f, P.x0) + eps
    if P.case["hom"] and P.f:
        d = ineq.pdeg(P.f)
        s = _power_sum(d, n)
        if ineq.peval(s, P.x0) == 0:
            s = ineq.ppow(_power_sum(1, n), d, n)
        w = ineq.peval(s, P.x0)
        if w == 0:
            return None
        P.f = ineq.padd(P.f, ineq.pscale(s, -v / w))
    else:
        P.f = ineq.padd(P.f, ineq.pconst(-v, n))
    return P


def pose(P, naming=None):
    """(f, ineq_constraints, eq_constraints, back, nonneg, zero): the arguments for a solver, the meaning of the
    given names, and the given forms that may be used as nonnegative / zero."""
    naming = naming or P.case["naming"]
    syms = P.syms
    back, nonneg, zero = {}, [], []

    def dress(polys, fname, bucket, inequality):
        d = {}
        for i, p in enumerate(polys):
            e = ineq.to_expr(p, syms)
            k = e
            if naming == "scaled":
                k = sp.Rational(i + 2, 3) * e if inequality else sp.Rational(-i - 2, 3) * e
            elif naming == "squared" and inequality:
                s = sp.Add(*syms) - 1 if not P.case["hom"] else syms[0] - 2 * syms[-1]
                k = (sp.expand(e * s**2))
            elif naming == "poly":
                k = sp.Poly(e, *syms)
            if naming == "func":
                v = sp.Function(fname)(*_args_for(p, syms, i))
            elif naming in ("sym", "scaled", "squared"):
                v = sp.Symbol("%s_%d" % (fname, i))
            else:
                v = e
            d[k] = v
            ke = k.as_expr() if isinstance(k, sp.Poly) else k
            if v != ke:
                back[v] = ke
            bucket.append(v)
        return d if naming not in ("list",) else list(d)

    g = dress(P.g, "F", nonneg, True)
    h = dress(P.h, "E", zero, False)
    f = ineq.to_expr(P.f, syms) if P.case["as_expr"] else ineq.to_poly(P.f, syms)
    return f, g, h, back, nonneg, zero


def _args_for(p, syms, i):
    """Arguments making the name of a constraint distinct: one symbol for single variables, all symbols shifted otherwise."""
    if len(p) == 1 and sum(next(iter(p))) == 1 and next(iter(p.values())) > 0:
        return [s for s, k in zip(syms, next(iter(p))) if k]
    return list(syms) + [sp.Integer(i)]


def target(P):
    return ineq.to_expr(P.f, P.syms)


def feasible_points(P, count, salt=0):
    """Rational points satisfying every constraint exactly (the planted ones first)."""
    pts = [list(y) for y in P.points]
    if P.h:
        return pts
    state = 12345 + salt
    for _ in range(count * 12):
        y = []
        for _ in range(P.n):
            state = (state * 6364136223846793005 + 1442695040888963407) % 2**64
            y.append(sp.Rational((state >> 33) % 25 - 9, (state >> 20) % 4 + 1))
        for z in (y, [abs(v) for v in y]):
            if all(ineq.peval(q, z) >= 0 for q in P.g):
                pts.append(z)
                break
        if len(pts) >= count:
            break
    return pts
