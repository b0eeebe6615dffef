"""C19: tabulated basis vectors match the basis polynomials."""
import itertools

import numpy as np
from hypothesis import strategies as st
import sympy as sp
from sympy.combinatorics import Permutation, PermutationGroup

from .. import evalx, gen, ineq
from ..core import Check

CHECK = Check("C19", rule="sequences of requests (tangent polynomial, degree, order of squared differences, group, sign pattern) to the "
              "basis generators of the linear solver; every returned row is compared with the polynomial denoted by the returned "
              "object, summed over the group from the definition, and the family with the set of all building blocks. "
              "Non-trivial: at least two building blocks.",
              assumptions=["the slot order of reduced vectors is the one reported by MonomialManager (decided in C13)"])

SYMS = [["a", "b", "c", "d"], ["x", "y", "z", "w"], ["c", "a", "b", "d"], ["x1", "x0", "x2", "x3"], ["z", "y", "x", "w"]]


def syms_of(i, n):
    return tuple(sp.Symbol(s) for s in SYMS[i % len(SYMS)][:n])


def group(g, n):
    if g is None:
        return PermutationGroup(Permutation(list(range(n))))
    return PermutationGroup(*[Permutation(p) for p in g])


def elements(g, n):
    return evalx.close_group([tuple(p) for p in g]) if g else [tuple(range(n))]


def to_dict(expr_or_poly, syms, back=None):
    e = expr_or_poly.as_expr()
    if back:
        e = e.xreplace(back)
    p = sp.Poly(sp.expand(e), *syms)
    return {m: c for m, c in p.terms() if c != 0}


def close(got, want):
    w = float(sp.N(want, 30))
    return abs(got - w) <= 1e-8 * (1 + abs(w))


@st.composite
def _request(draw, n):
    td = draw(st.integers(0, {2: 3, 3: 2, 4: 1}[n]))
    t = draw(gen.hom_poly(n, td, 3, coef=gen.rats(4, 3), min_terms=1))
    up = draw(st.integers(0, {2: 6, 3: 5, 4: 4}[n]))
    return {"t": t, "td": td, "d": td + up, "order": draw(st.sampled_from([0, 1, 2, 3, 4, 6, 8, True, False])),
            "even": draw(st.booleans()), "square": draw(st.sampled_from([False, False, True])),
            "alias": draw(st.booleans()), "root": draw(st.sampled_from([0, 0, 0, 0, 2, 3])),
            "g": draw(st.one_of(st.none(), gen.named_group(n))), "s": draw(st.integers(0, 4))}


@st.composite
def _case(draw):
    n = draw(st.sampled_from([2, 3, 3, 3, 4]))
    return {"n": n, "reqs": draw(st.lists(_request(n), min_size=1, max_size=3))}


def tangent_of(q, n):
    p = {}
    for c, e in q["t"]:
        e = tuple(e)
        p[e] = p.get(e, 0) + gen.R(c)
    p = {e: c for e, c in p.items() if c != 0}
    if q["root"] and p:
        k = sorted(p)[0]
        p[k] = p[k] * sp.sqrt(q["root"])
    if q["square"] and q["td"] == 1:
        p = ineq.pmul(p, p)
    return p


def family(n, t, td, d, order, step):
    """All x^a prod (xi-xj)^(2b) t of degree d."""
    if order is True:
        order = 10**6
    elif order is False:
        order = 0
    order = max(0, min(order, d - td))
    pairs = list(itertools.combinations(range(n), 2))
    diffs = []
    for i, j in pairs:
        q = ineq.padd(ineq.pvar(i, n), ineq.pscale(ineq.pvar(j, n), -1))
        diffs.append(ineq.pmul(q, q))
    out = []
    for k in range(order // 2 + 1):
        for comb in itertools.combinations_with_replacement(range(len(pairs)), k):
            q = t
            for i in comb:
                q = ineq.pmul(q, diffs[i])
            rest = d - td - 2 * k
            if rest < 0 or rest % step:
                continue
            for c in itertools.combinations_with_replacement(range(n), rest // step):
                m = tuple(c.count(i) * step for i in range(n))
                out.append(ineq.pmul(q, {m: sp.Integer(1)}))
    return out


def freeze(p):
    return tuple(sorted((e, c) for e, c in p.items()))


@CHECK.sub("blocks", _case, quick=1200, thorough=20000, shards=7, case_timeout=40,
           rule="rows of the tabulated matrix, as_array_np, as_array_sp, as_poly and as_expr of every building block; completeness of the family")
def blocks(case, ctx):
    from triples.core.linsos.basis import LinearBasisTangent, LinearBasisTangentEven
    from triples.utils.monomials import MonomialManager
    n = case["n"]
    ctx.label("n%d" % n, "requests%d" % len(case["reqs"]))
    for q in case["reqs"]:
        t = tangent_of(q, n)
        if not t:
            continue
        td = ineq.pdeg(t)
        if td > q["d"]:
            continue
        syms = syms_of(q["s"], n)
        els = elements(q["g"], n)
        tp = ineq.to_poly(t, syms)
        if q["root"]:
            tp = sp.Poly(tp.as_expr(), *syms, extension=True)
        name = sp.Function("F")(*syms) if q["alias"] else tp.as_expr()
        back = {name: tp.as_expr()} if q["alias"] else {}
        cls = LinearBasisTangentEven if q["even"] else LinearBasisTangent
        step = 2 if q["even"] else 1
        g = group(q["g"], n)
        basis, mat = cls.generate_quad_diff(name, syms, q["d"], symmetry=g, tangent_p=tp, quad_diff_order=q["order"])
        what = "generate_quad_diff(%s, %s, degree %d, order %s, %s)" % (tp.as_expr(), syms, q["d"], q["order"], cls.__name__)
        ctx.label("even" if q["even"] else "odd", "alias" if q["alias"] else "plain", "group%d" % len(els))
        want = family(n, t, td, q["d"], q["order"], step)
        if len(want) > 900:
            continue
        mat = np.asarray(mat)
        ctx.require(len(basis) == (mat.shape[0] if mat.size else 0), lambda: "%s: %d blocks but matrix of shape %s" % (what, len(basis), mat.shape), "shape")
        ctx.nontrivial(len(basis) > 1)
        reps = MonomialManager(n, g).inv_monoms(q["d"])
        got = set()
        for i, b in enumerate(basis):
            p = to_dict(b.as_expr(syms), syms, back)
            got.add(freeze(p))
            full = ineq.pcyc(p, els)
            for j, m in enumerate(reps):
                ctx.require(close(mat[i, j], full.get(m, 0)),
                            lambda: "%s: row %d (%s) holds %r at %s, the symmetric sum has %s" % (what, i, b.as_expr(syms), mat[i, j], m, full.get(m, 0)), "matrix")
            if len(basis) > 40 and i % 7:
                continue
            p2 = to_dict(b.as_poly(syms), syms)
            ctx.require(freeze(p2) == freeze(p), lambda: "%s: as_poly of block %s is %s" % (what, b.as_expr(syms), p2), "as_poly")
            ctx.require(b.nvars() == n and b.degree() == q["d"], lambda: "%s: degree %s of %s" % (what, b.degree(), b.as_expr(syms)), "degree")
            u = b.as_array_np(expand_cyc=True, symmetry=g)
            v = b.as_array_sp(expand_cyc=True, symmetry=g)
            ctx.require(len(u) == len(reps) and v.shape[0] == len(reps), "%s: vector lengths" % what, "shape")
            for j, m in enumerate(reps):
                w = full.get(m, sp.Integer(0))
                ctx.require(close(u[j], w), lambda: "%s: as_array_np of %s holds %r at %s, not %s" % (what, b.as_expr(syms), u[j], m, w), "array_np")
                ctx.require(sp.expand(v[j] - w) == 0, lambda: "%s: as_array_sp of %s holds %s at %s, not %s" % (what, b.as_expr(syms), v[j], m, w), "array_sp")
            nb = -b
            p3 = to_dict(nb.as_expr(syms), syms, back)
            ctx.require(freeze(p3) == freeze(ineq.pscale(p, -1)), lambda: "%s: negation of %s is %s" % (what, b.as_expr(syms), nb.as_expr(syms)), "neg")
            w = nb.as_array_sp(expand_cyc=True, symmetry=g)
            ctx.require(all(sp.expand(w[j] + v[j]) == 0 for j in range(len(reps))), lambda: "%s: vector of the negation of %s" % (what, b.as_expr(syms)), "neg:vector")
        if not q["root"]:
            need = {freeze(p) for p in want}
            ctx.require(got == need, lambda: "%s: missing %s; superfluous %s" % (what, sorted(need - got)[:2], sorted(got - need)[:2]), "family")


@st.composite
def _large_case(draw):
    n = draw(st.sampled_from([4, 5, 3, 6, 2]))
    d = draw(st.sampled_from({2: [40, 25, 12], 3: [30, 22, 15, 9], 4: [16, 13, 11, 8, 6], 5: [10, 9, 8, 7, 5], 6: [7, 6, 5, 4]}[n]))
    order = draw(st.sampled_from([0, 0, 2, 4]))
    up = draw(st.integers(0, {2: 8, 3: 5, 4: 3, 5: 2, 6: 2}[n]))
    td = max(d - up, 0)
    return {"n": n, "d": d, "td": td, "t": draw(gen.hom_poly(n, td, 3, coef=gen.rats(4, 3), min_terms=1)), "order": order,
            "even": draw(st.booleans()), "g": draw(st.one_of(st.none(), st.none(), gen.named_group(n))), "s": 0, "square": False, "root": 0}


@CHECK.sub("large", _large_case, quick=400, thorough=4000, shards=4, case_timeout=60, hang=True,
           rule="blocks of high degree or in many variables: every row of the tabulated matrix against the block it belongs to")
def large(case, ctx):
    from triples.core.linsos.basis import LinearBasisTangent, LinearBasisTangentEven
    from triples.utils.monomials import MonomialManager
    n, d = case["n"], case["d"]
    t = tangent_of(case, n)
    if not t:
        ctx.skip("zero")
    els = elements(case["g"], n)
    if len(els) > 120:
        ctx.skip("large group")
    syms = tuple(sp.symbols("x:%d" % n))
    g = group(case["g"], n)
    tp = ineq.to_poly(t, syms)
    cls = LinearBasisTangentEven if case["even"] else LinearBasisTangent
    basis, mat = cls.generate_quad_diff(tp.as_expr(), syms, d, symmetry=g, tangent_p=tp, quad_diff_order=case["order"])
    mat = np.asarray(mat)
    what = "generate_quad_diff(%s, degree %d, order %s, %s)" % (tp.as_expr(), d, case["order"], cls.__name__)
    ctx.require(len(basis) == (mat.shape[0] if mat.size else 0), lambda: "%s: %d blocks but matrix of shape %s" % (what, len(basis), mat.shape), "shape")
    reps = {m: i for i, m in enumerate(MonomialManager(n, g).inv_monoms(d))}
    ctx.nontrivial(len(basis) > 1)
    ctx.label("n%d" % n, "monomials>2000" if len(reps) > 2000 else "monomials>500" if len(reps) > 500 else "monomials")
    for i in range(0, len(basis), max(1, len(basis) // 25)):
        want = np.zeros(len(reps))
        for m, c in basis[i].as_poly(syms).terms():
            for p in els:
                k = reps.get(tuple(m[j] for j in p))
                if k is not None:
                    want[k] += float(c)
        bad = np.nonzero(np.abs(mat[i] - want) > 1e-8 * (1 + np.abs(want)))[0] if mat.shape[1] == len(want) else [0]
        ctx.require(len(bad) == 0, lambda: "%s: row %d (%s) is wrong at slots %s" % (what, i, basis[i].as_expr(syms), list(bad[:4])), "matrix")


@st.composite
def _plain_case(draw):
    n = draw(st.sampled_from([2, 3, 4]))
    r = draw(_request(n))
    return {"n": n, "req": r, "equal": draw(st.booleans()), "names": draw(st.lists(st.integers(0, 3), min_size=n, max_size=n)), "auto": draw(st.booleans())}


@CHECK.sub("plain", _plain_case, quick=500, thorough=8000, shards=2, case_timeout=30,
           rule="monomial multiples of a tangent, of exact or bounded degree, and their even-power form with named variables")
def plain(case, ctx):
    from triples.core.linsos.basis import LinearBasisTangent, LinearBasisTangentEven
    n, q = case["n"], case["req"]
    t = tangent_of(q, n)
    if not t or ineq.pdeg(t) > q["d"]:
        ctx.skip("zero")
    td = ineq.pdeg(t)
    syms = syms_of(q["s"], n)
    tp = ineq.to_poly(t, syms)
    cls = LinearBasisTangentEven if q["even"] else LinearBasisTangent
    step = 2 if q["even"] else 1
    alias = q["alias"] and not case["auto"]
    name = sp.Function("F")(*syms) if alias else tp.as_expr()
    back = {name: tp.as_expr()} if alias else {}
    basis = cls.generate(name, syms, q["d"], tangent_p=tp if not case["auto"] else None, require_equal=case["equal"])
    got = sorted(freeze(to_dict(b.as_expr(syms), syms, back)) for b in basis)
    degs = [q["d"] - td] if case["equal"] else range(0, q["d"] - td + 1)
    if (q["d"] - td) % step and not case["equal"]:
        ctx.skip("bounded degree of the other parity")
    want = []
    for k in degs:
        if k % step:
            continue
        for c in itertools.combinations_with_replacement(range(n), k // step):
            want.append(freeze(ineq.pmul(t, {tuple(c.count(i) * step for i in range(n)): sp.Integer(1)})))
    ctx.nontrivial(len(want) > 1)
    ctx.require(set(got) == set(want), lambda: "%s.generate(%s, %s, %d, equal=%s): missing %s; superfluous %s" % (
        cls.__name__, name, syms, q["d"], case["equal"], sorted(set(want) - set(got))[:2], sorted(set(got) - set(want))[:2]), "family")
    # even form: odd powers move into the tangent under the names of the variables
    named, nb = [], dict(back)
    for s, k in zip(syms, case["names"]):
        if k == 0:
            named.append(s)
        else:
            e = sp.Function("N")(s) / k
            named.append(e)
            nb[sp.Function("N")(s)] = k * s
    for b in basis[:40]:
        if not hasattr(b, "to_even"):
            break
        p = to_dict(b.as_expr(syms), syms, back)
        ev = b.to_even(named)
        ctx.require(isinstance(ev, LinearBasisTangentEven) and all(x % 2 == 0 for x in ev.powers), lambda: "even form of %s has powers %s" % (b.as_expr(syms), ev.powers), "even:powers")
        p2 = to_dict(ev.as_expr(syms), syms, nb)
        ctx.require(freeze(p2) == freeze(p), lambda: "even form of %s is %s" % (b.as_expr(syms), ev.as_expr(syms)), "even:expr")
        p3 = to_dict(ev.as_poly(syms), syms)
        ctx.require(freeze(p3) == freeze(p), lambda: "even form of %s has polynomial %s" % (b.as_expr(syms), ev.as_poly(syms)), "even:poly")


@st.composite
def _lift_case(draw):
    n = draw(st.sampled_from([2, 3, 3, 4]))
    d = draw(st.integers(1, 3))
    return {"n": n, "f": draw(gen.hom_poly(n, d, 4, min_terms=1)), "lin": draw(st.lists(st.tuples(
        st.lists(st.integers(-2, 2), min_size=n, max_size=n), st.booleans()).map(list), max_size=3)),
        "vars": draw(st.booleans()), "quad": draw(st.booleans()), "g": draw(st.one_of(st.none(), gen.named_group(n))),
        "limit": draw(st.integers(0, 4 if n < 4 else 3)), "dlimit": draw(st.sampled_from([1000, 1000, 3])), "s": draw(st.integers(0, 4))}


@CHECK.sub("multipliers", _lift_case, quick=300, thorough=5000, shards=2, case_timeout=60,
           rule="multipliers of the inequality of increasing degree: sign, degree, names and vectors of the blocks -f*h")
def multipliers(case, ctx):
    from triples.core.linsos.updegree import lift_degree
    from triples.utils.monomials import MonomialManager
    n = case["n"]
    syms = syms_of(case["s"], n)
    els = elements(case["g"], n)
    p = {}
    for c, e in case["f"]:
        e = tuple(e)
        p[e] = p.get(e, 0) + gen.R(c)
    p = ineq.pcyc({e: c for e, c in p.items() if c != 0}, els)
    if not p:
        ctx.skip("zero")
    f = ineq.to_poly(p, syms)
    cons, back, linear = {}, {}, []
    raw = []
    if case["vars"]:
        raw += [(ineq.pvar(i, n), False) for i in range(n)]
    for v, named in case["lin"]:
        q = ineq.padd(*[ineq.pscale(ineq.pvar(i, n), k) for i, k in enumerate(v)])
        if q:
            raw += [(ineq.pact(q, g), named) for g in els]
    if case["quad"]:
        raw.append((ineq.padd(*[ineq.ppow(ineq.pvar(i, n), 2, n) for i in range(n)]), True))
    seen = set()
    for i, (q, named) in enumerate(raw):
        k = freeze(q)
        if k in seen:
            continue
        seen.add(k)
        P = ineq.to_poly(q, syms)
        name = sp.Symbol("w%d" % i) if named else P.as_expr()
        cons[P] = name
        if named:
            back[name] = P.as_expr()
    if len(cons) > 6:
        ctx.skip("many constraints")
    if case["g"] and back:
        # names must be permuted with the variables, which plain symbols are not
        cons = {P: P.as_expr() for P in cons}
        back = {}
    man = MonomialManager(n, group(case["g"], n))
    d = f.total_degree()
    pts = [[sp.Integer(((7 * i + 3) * (j * j + 5 * j + 1) + i * j) % 23 - 11) for j in range(n)] for i in range(120)]
    pts = [x for x in pts if all(c.eval(x) >= 0 for c in cons)][:8]
    last = -1
    for info in lift_degree(f, ineq_constraints=cons, symmetry=man, lift_degree_limit=case["limit"], degree_limit=case["dlimit"]):
        k = info["add_degree"]
        ctx.require(last < k <= case["limit"] and info["degree"] == d + k and d + k <= case["dlimit"], lambda: "multiplier degree %d after %d" % (k, last), "lift:degree")
        last = k
        reps = man.inv_monoms(d + k)
        for b in info["basis"][:30]:
            h = b.multiplier
            hp = to_dict(h, syms, back)
            ctx.require(ineq.ishom(hp) and ineq.pdeg(hp) == k, lambda: "multiplier %s has not degree %d" % (h, k), "lift:degree")
            if not ineq.visible(h, set(cons.values())):
                for x in pts:
                    v = ineq.peval(hp, x)
                    ctx.require(v >= 0, lambda: "multiplier %s is %s at the feasible point %s (constraints %s)" % (h, v, x, list(cons)), "lift:sign")
            want = ineq.pscale(ineq.pmul(p, hp), -1)
            got = to_dict(b.as_poly(syms), syms)
            ctx.require(freeze(got) == freeze(want), lambda: "block of multiplier %s is %s" % (h, got), "lift:poly")
            full = ineq.pcyc(want, els)
            u = b.as_array_np(expand_cyc=True, symmetry=man)
            v = b.as_array_sp(expand_cyc=True, symmetry=man)
            ctx.nontrivial(k > 0)
            for j, m in enumerate(reps):
                w = full.get(m, sp.Integer(0))
                ctx.require(close(u[j], w) and v[j] == w, lambda: "block of multiplier %s holds %s, %s at %s, not %s" % (h, u[j], v[j], m, w), "lift:vector")
