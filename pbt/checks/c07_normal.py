"""C07: problem normalisation preserves the problem."""
import itertools

from hypothesis import strategies as st
import sympy as sp

from .. import evalx, gen, ineq
from ..cert import _expand_cyclic
from ..core import Check

CHECK = Check("C07", rule="polynomials and constraint lists with repeated, negative and scaled factors, homogeneous or not, "
              "symmetric under a chosen group or nearly so; the decorator that normalises every solver's input is driven "
              "with a recording solver whose answer is built from what it is given. Oracle: exact evaluation over a prime "
              "field and explicit group action on coefficient tables. Non-trivial: a non-constant constraint or a group.")
MOD = "triples.core.shared"
S3 = sp.symbols("x y z w")


def factored(n, maxdeg=2, maxf=3):
    fac = st.tuples(gen.poly(n, maxdeg, 3, st.sampled_from([1, -1, 2, -3, 3]), 2), st.integers(1, 4)).map(list)
    return st.fixed_dictionaries({"c": gen.rats(5, 4, nonzero=True), "f": st.lists(fac, min_size=1, max_size=maxf)})


def fac_poly(c, gens):
    p = sp.Poly(gen.R(c["c"]), *gens, domain="QQ")
    for t, k in c["f"]:
        p = p * gen.to_poly(t, gens, "QQ")**k
    return p


PTS = list(itertools.product([-3, -1, 2, 5], [-2, -1, 1, 4], [-5, 1, 3, 7]))


@CHECK.sub("sqf", lambda: st.fixed_dictionaries({"p": factored(3), "dom": st.sampled_from(["QQ", "QQ", "ZZ"])}),
           quick=1500, thorough=20000, shards=2, case_timeout=20, hang=True, rule="standardising one inequality and one equality constraint")
def sqf(case, ctx):
    ineq_std = ctx.helper(MOD, "_std_ineq_constraints")
    eq_std = ctx.helper(MOD, "_std_eq_constraints")
    gens = S3[:3]
    p = fac_poly(case["p"], gens)
    if p.total_degree() > 9:
        ctx.skip("degree")
    if case["dom"] == "ZZ":
        p = p.clear_denoms(convert=True)[1]
    e = sp.Symbol("NAME")
    ctx.nontrivial(p.total_degree() > 0)
    q, e2 = ineq_std(p, e)
    q = sp.Poly(q, *gens)
    d = evalx.differs(e2.xreplace({e: p.as_expr()}), q.as_expr(), gens)
    if not p.is_zero:
        ctx.require(not d, lambda: "inequality %s becomes %s with name %s: %s" % (p.as_expr(), q.as_expr(), e2, d), "ineq:name")
    for pt in PTS[::3]:
        a, b = p.eval(pt), q.eval(pt)
        ctx.require((a > 0) == (b > 0) or a == 0, lambda: "inequality %s has sign %s at %s but %s becomes %s" % (p.as_expr(), sp.sign(a), pt, q.as_expr(), b), "ineq:sign")
        ctx.require(b != 0 or a == 0, lambda: "sign lost", "ineq:sign")
    ctx.require(q.is_zero or q.is_sqf, lambda: "%s is not square free" % q.as_expr(), "ineq:sqf")
    q, e3 = eq_std(p, e)
    q = sp.Poly(q, *gens)
    if p.total_degree() <= 0:
        ctx.require(q.is_ground and q.is_zero == p.is_zero, "constant equality %s became %s" % (p.as_expr(), q.as_expr()), "eq:const")
        return
    m = e3
    sign = 1
    if isinstance(m, sp.Mul) and m.args[0] == -1:
        sign, m = -1, -m
    k = 1
    if isinstance(m, sp.Pow) and isinstance(m.exp, sp.Rational) and m.exp.q > 1 and m.exp.p == 1:
        k, m = int(m.exp.q), m.base
    d1 = evalx.differs(m.xreplace({e: p.as_expr()}), q.as_expr()**k, gens)
    d2 = evalx.differs(m.xreplace({e: p.as_expr()}), (-q.as_expr())**k, gens)
    ctx.require(not d1 or not d2, lambda: "equality %s becomes %s with name %s: %s" % (p.as_expr(), q.as_expr(), e3, d1), "eq:name")
    if k == 1:
        d = evalx.differs((sign * m).xreplace({e: p.as_expr()}), q.as_expr(), gens)
        ctx.require(not d, lambda: "equality %s becomes %s with name %s: %s" % (p.as_expr(), q.as_expr(), e3, d), "eq:name")
    ctx.require(q.is_sqf and (q.sqf_part().monic() == p.sqf_part().monic()), lambda: "zero set of %s became that of %s" % (p.as_expr(), q.as_expr()), "eq:zeros")


@CHECK.sub("homogenize", lambda: st.fixed_dictionaries({"l": st.lists(gen.poly(3, 4, 5, gen.rats(6, 4, True), min_terms=2), min_size=1, max_size=3),
                                                        "names": st.sampled_from([["x", "y", "z"], ["a", "t", "c"], ["t", "t0", "_t"]]), "own": st.booleans()}),
           quick=600, thorough=8000, case_timeout=20, hang=True, rule="homogenising polynomials and expression lists")
def homogenize(case, ctx):
    hom, homl = ctx.helper(MOD, "homogenize"), ctx.helper(MOD, "homogenize_expr_list")
    gens = sp.symbols(case["names"])
    ps = [gen.to_poly(t, gens) for t in case["l"]]
    p = ps[0]
    T = sp.Symbol("T") if case["own"] else None
    h, t = hom(p, T) if T is not None else hom(p)
    ctx.nontrivial(not p.is_homogeneous)
    if p.is_homogeneous:
        ctx.require(h == p and t is None, "a homogeneous polynomial was changed", "hom:noop")
    else:
        ctx.require(t is not None and t not in p.free_symbols and (T is None or t == T), lambda: "homogenizer %s of %s" % (t, p), "hom:symbol")
        ctx.require(h.is_homogeneous and h.total_degree() == p.total_degree(), lambda: "%s is not the homogenisation of %s" % (h, p), "hom:degree")
        ctx.require(not evalx.differs(h.as_expr().subs(t, 1), p.as_expr(), gens), lambda: "%s at 1 is not %s" % (h, p), "hom:back")
    T = sp.Symbol("T")
    out = homl(list(ps), T)
    ctx.require(len(out) == len(ps), "length", "homlist:length")
    for p, h in zip(ps, out):
        ctx.require(sp.Poly(h, *gens, T).is_homogeneous and not evalx.differs(sp.sympify(h).as_expr().subs(T, 1), p.as_expr(), gens), lambda: "%s became %s" % (p, h), "homlist:poly")
    out = homl([p.as_expr() for p in ps if not p.is_ground], T)
    for p, h in zip([p for p in ps if not p.is_ground], out):
        ctx.require(sp.Poly(h, *gens, T).is_homogeneous, lambda: "%s became %s, not homogeneous" % (p.as_expr(), h), "homlist:expr")
        ctx.require(not evalx.differs(h.subs(T, 1), p.as_expr(), gens), lambda: "%s became %s" % (p.as_expr(), h), "homlist:expr")


def act(p, g, gens):
    """image of a polynomial when the variable gens[i] is replaced by gens[g[i]]"""
    d = {}
    for m, c in p.terms():
        e = [0] * len(g)
        for i, k in enumerate(m):
            e[g[i]] += k
        d[tuple(e)] = d.get(tuple(e), 0) + c
    return sp.Poly(d, *gens)


def key(p):
    return frozenset(p.terms())


@st.composite
def _sym_case(draw):
    n = draw(st.sampled_from([2, 3, 3, 4, 4, 5]))
    G = draw(gen.named_group(n))
    lists = draw(st.lists(st.lists(gen.poly(n, 3, 3, st.integers(-3, 3), 1), min_size=1, max_size=2), min_size=1, max_size=3))
    return {"n": n, "G": G, "lists": lists, "mode": draw(st.lists(st.sampled_from(["orbit", "orbit", "sum", "raw"]), min_size=3, max_size=3)),
            "break": draw(st.integers(0, 5)), "hom": draw(st.booleans()), "dup": draw(st.booleans())}


def sym_lists(case):
    n = case["n"]
    gens = sp.symbols("x0:%d" % n)
    els = evalx.close_group(case["G"])
    if len(els) > 24:
        els = evalx.close_group(case["G"][:1])
    out = []
    for l, mode in zip(case["lists"], case["mode"]):
        ps = []
        for t in l:
            p = gen.to_poly(t, gens)
            if mode == "raw":
                ps.append(p)
            elif mode == "sum":
                q = sp.Poly(0, *gens)
                for g in els:
                    q = q + act(p, g, gens)
                ps.append(q)
            else:
                for g in els:
                    q = act(p, g, gens)
                    if q not in ps or case["dup"]:
                        ps.append(q)
        if case["break"] == 0 and len(ps) > 1:
            ps = ps[:-1]
        out.append(ps)
    if case["hom"]:
        t = sp.Symbol("t")
        gens = gens + (t,)
        out = [[sp.Poly(p.homogenize(t) if not p.is_homogeneous else p.as_expr(), *gens) for p in ps] for ps in out]
    return gens, els, out


@CHECK.sub("infer", _sym_case, quick=1200, thorough=15000, shards=2, case_timeout=30, hang=True, rule="symmetry inferred for lists of polynomials")
def infer(case, ctx):
    f = ctx.helper(MOD, "identify_symmetry_from_lists")
    gens, els, lists = sym_lists(case)
    if not any(lists):
        ctx.skip("empty")
    G = f([list(l) for l in lists], has_homogenized=case["hom"])
    got = evalx.close_group([g.array_form for g in G.generators] or [list(range(len(gens)))])
    n = len(gens)
    ctx.require(all(len(g) == n for g in got), lambda: "group on %d points for %d variables" % (len(got[0]), n), "infer:degree")
    ctx.nontrivial(len(got) > 1)
    ctx.label("order%d" % len(got))
    for g in got:
        for l in lists:
            s = {key(q) for q in l}
            for p in l:
                ctx.require(key(act(p, g, gens)) in s, lambda: "inferred group contains %s but the image of %s is not in the list %s" % (list(g), p.as_expr(), [q.as_expr() for q in l]), "infer:invariant")
    # full symmetry and rotation are always recognised
    if case["break"] and "raw" not in case["mode"][:len(lists)]:
        rot = tuple(list(range(1, case["n"])) + [0]) + ((n - 1,) if case["hom"] else ())
        full = set(g + ((n - 1,) if case["hom"] else ()) for g in els)
        if rot in full:
            ctx.require(rot in got, lambda: "rotational symmetry was missed", "infer:missed")
        if len(full) > 1 and len(els) == sp.factorial(case["n"]) and case["n"] > 2:
            ctx.require(len(got) >= len(els), lambda: "full symmetry was missed", "infer:missed")


@CHECK.sub("clear", _sym_case, quick=600, thorough=8000, shards=1, case_timeout=30, hang=True, rule="removing duplicates up to symmetry")
def clear(case, ctx):
    f = ctx.helper(MOD, "clear_polys_by_symmetry")
    from triples.utils.monomials import MonomialManager
    from sympy.combinatorics import Permutation, PermutationGroup
    case = dict(case, hom=False)
    n = case["n"]
    gens, els, lists = sym_lists(case)
    polys = [p for l in lists for p in l if not p.is_zero][:12]
    G = PermutationGroup(*[Permutation(list(g)) for g in (case["G"] if len(evalx.close_group(case["G"])) <= 24 else case["G"][:1])])
    full = evalx.close_group([g.array_form for g in G.generators] or [list(range(n))])
    tup = case["dup"]
    if not all(p.is_homogeneous for p in polys):
        polys = [p for p in polys if p.is_homogeneous]
    items = [(p.as_expr(), sp.Symbol("k%d" % i)) if tup else p.as_expr() for i, p in enumerate(polys)]
    out = f(list(items), gens, MonomialManager(n, G))
    ctx.nontrivial(len(polys) > 1 and len(full) > 1)
    kept = [sp.Poly(t[0] if tup else t, *gens) for t in out]
    ctx.require(all(t in items for t in out), lambda: "an element that was not in the list appeared: %s" % (out,), "clear:subset")
    for p in polys:
        ctx.require(any(act(p, g, gens) in kept for g in full), lambda: "%s was removed but no image of it is kept" % p.as_expr(), "clear:lost")
    if len(full) > 1:
        for i, p in enumerate(kept):
            for q in kept[i + 1:]:
                ctx.require(all(act(p, g, gens) != q for g in full), lambda: "%s and %s are images of each other" % (p.as_expr(), q.as_expr()), "clear:duplicate")


# ------------------------------------------------------------------------- the decorator
@st.composite
def _probe(draw):
    n = draw(st.integers(1, 3))
    G = draw(gen.named_group(n)) if n > 1 else [[0]]
    con = st.tuples(st.sampled_from(["plain", "plain", "scaled", "cubed", "sq", "neg", "const"]), gen.poly(n, 2, 3, st.integers(-3, 3), 1),
                    st.sampled_from(["self", "F", "sym"])).map(list)
    return {"n": n, "G": G, "p": draw(gen.poly(n, 4, 5, min_terms=1)), "symp": draw(st.booleans()),
            "ineq": draw(st.lists(con, max_size=3)), "eq": draw(st.lists(con, max_size=2)), "orbit": draw(st.booleans()),
            "opts": [draw(st.booleans()) for _ in range(4)], "as_poly": draw(st.booleans()), "extra": draw(st.booleans()),
            "names": draw(st.sampled_from([["x", "y", "z"], ["t", "a", "b"], ["c", "b", "a"]])), "list": draw(st.booleans())}


@CHECK.sub("decorator", _probe, quick=1500, thorough=20000, shards=3, case_timeout=30, hang=True,
           rule="a recording solver behind the input normaliser; answers are assembled from the constraints it received")
def decorator(case, ctx):
    sanitize = ctx.helper(MOD, "sanitize_input")
    from triples.utils.expression import SolutionSimple
    n = case["n"]
    gens = sp.symbols(case["names"][:n])
    gens = tuple(gens)
    els = evalx.close_group(case["G"])

    def orbit(p, use):
        out = []
        for g in (els if use else [els[0]] if tuple(els[0]) == tuple(range(n)) else [tuple(range(n))]):
            q = act(p, g, gens)
            if q not in out:
                out.append(q)
        return out
    p = gen.to_poly(case["p"], gens)
    if case["symp"]:
        p = sum([act(p, g, gens) for g in els], sp.Poly(0, *gens))
    if p.is_zero:
        ctx.skip("zero")

    def build(cs, tag):
        d, back = {}, {}
        for i, (kind, t, nm) in enumerate(cs):
            base = gen.to_poly(t, gens)
            if kind == "const":
                base = sp.Poly(3, *gens)
            for j, q in enumerate(orbit(base, case["orbit"] or case["symp"])):
                if kind == "scaled":
                    q = q * sp.Rational(5, 2)
                elif kind == "neg":
                    q = q * -3
                elif kind == "cubed" and tag == "g":
                    q = q**3
                elif kind == "sq" and tag == "g":
                    q = q**2 * sp.Poly(gens[0], *gens)
                e = q.as_expr()
                if q.is_zero or e in d:
                    continue
                name = e if nm == "self" else (sp.Symbol("%s%d_%d" % (tag, i, j)) if nm == "sym" else sp.Function("%s%d_%d" % (tag.upper(), i, j))(*gens))
                d[e] = name
                if name != e:
                    back[name] = e
        return d, back
    ineqs, b1 = build(case["ineq"], "g")
    eqs, b2 = build(case["eq"], "h")
    if any(len(sp.Poly(e, *gens).sqf_list()[1]) and max(k for _, k in sp.Poly(e, *gens).sqf_list()[1]) > 1 for e in eqs):
        ctx.skip("repeated equality factor")
    back = {**b1, **b2}
    if case["list"]:
        ineqs, eqs, back = {e: e for e in ineqs}, {e: e for e in eqs}, {}
    homog, isqf, esqf, infer = case["opts"]
    seen = {}
    snapshot = (dict(ineqs), dict(eqs))

    def solver(poly, ineq_constraints={}, eq_constraints={}, symmetry=None, _homogenizer=None):
        seen.update(poly=poly, ineq=dict(ineq_constraints), eq=dict(eq_constraints), sym=symmetry, t=_homogenizer)
        # an answer that mentions every constraint: sum of name - constraint (zero) plus the polynomial
        e = poly.as_expr()
        for k, (q, name) in enumerate(list(ineq_constraints.items()) + list(eq_constraints.items())):
            e = e + (k + 2) * (name - q.as_expr()) * poly.gens[0]
        return SolutionSimple(problem=poly, solution=e, is_equal=True)
    wrapped = sanitize(homogenize=homog, ineq_constraint_sqf=isqf, eq_constraint_sqf=esqf, infer_symmetry=infer, wrap_constraints=infer and homog)(solver)
    arg = p if case["as_poly"] else p.as_expr()
    if not case["as_poly"] and case["extra"]:
        arg = sp.expand(arg)
    sol = wrapped(arg, list(ineqs) if case["list"] else dict(ineqs), list(eqs) if case["list"] else dict(eqs))
    ctx.nontrivial(bool(ineqs or eqs))
    ctx.label("hom" if homog else "nohom", "wrap" if infer and homog else "nowrap", "n%d" % n)
    P = seen["poly"]
    t = seen["t"] if homog else None
    allg = P.gens
    # what the solver saw is the posed problem
    one = {t: sp.Integer(1)} if t is not None else {}
    ctx.require(not evalx.differs(P.as_expr().subs(one), p.as_expr(), gens), lambda: "the solver was given %s instead of %s" % (P, p), "deco:poly")
    if homog:
        everything = [P] + list(seen["ineq"]) + list(seen["eq"])
        ctx.require(all(sp.Poly(q, *allg).is_homogeneous for q in everything), "not homogeneous after homogenising", "deco:hom")
    given = [sp.Poly(e, *gens) for e in ineqs]
    for q in seen["ineq"]:
        q1 = sp.Poly(q.as_expr().subs(one), *gens)
        if q1.is_ground:
            ctx.require(q1.eval((0,) * n) >= 0 or any(g.is_ground and g.eval((0,) * n) < 0 for g in given), "a false constraint", "deco:ineq")
            continue
        pts = [pt[:n] for pt in PTS]
        ok = any(all((g.eval(pt) > 0) == (q1.eval(pt) > 0) or g.eval(pt) == 0 for pt in pts) for g in given)
        ctx.require(ok, lambda: "inequality constraint %s handed to the solver matches none of %s" % (q.as_expr(), list(ineqs)), "deco:ineq")
    nt = sum(1 for g in given if not g.is_ground)
    ctx.require(nt == 0 or len(seen["ineq"]) > 0 or all(g.is_ground or all(k % 2 == 0 for _, k in g.sqf_list()[1]) for g in given),
                lambda: "all inequality constraints were dropped", "deco:ineq lost")
    for g in given:
        if g.is_ground or all(k % 2 == 0 for _, k in g.sqf_list()[1]):
            continue
        pts = [pt[:n] for pt in PTS]
        ok = any(all((g.eval(pt) > 0) == (sp.Poly(q.as_expr().subs(one), *gens).eval(pt) > 0) or g.eval(pt) == 0 for pt in pts) for q in seen["ineq"])
        ctx.require(ok, lambda: "inequality constraint %s was lost" % g.as_expr(), "deco:ineq lost")
    zs = [sp.Poly(q.as_expr().subs(one), *gens).sqf_part().monic() for q in seen["eq"]]
    for e in eqs:
        if sp.Poly(e, *gens).is_ground:
            continue
        z = sp.Poly(e, *gens).sqf_part().monic()
        ctx.require(sp.Poly(z, *gens, domain="QQ") in [sp.Poly(y, *gens, domain="QQ") for y in zs], lambda: "equality constraint %s was lost or changed: %s" % (e, list(seen["eq"])), "deco:eq")
    if infer and seen["sym"] is not None:
        G = seen["sym"].perm_group
        for g in evalx.close_group([h.array_form for h in G.generators] or [list(range(len(allg)))]):
            for l in ([P], list(seen["ineq"]), list(seen["eq"])):
                s = {key(q) for q in l}
                for q in l:
                    ctx.require(key(act(q, g, allg)) in s, lambda: "symmetry %s does not fix the problem" % (list(g),), "deco:symmetry")
    out = sol.solution if not isinstance(sol, sp.Expr) else sol
    full = _expand_cyclic(out).xreplace(back)
    extra = full.free_symbols - set(gens)
    ctx.require(not extra and not [f for f in full.atoms(sp.Function)], lambda: "answer contains %s" % full, "deco:names")
    d = evalx.differs(full, p.as_expr(), gens)
    ctx.require(not d, lambda: "an answer built from the constraints' names is %s instead of %s: %s" % (out, p.as_expr(), d), "deco:answer")
    ctx.require((ineqs, eqs) == snapshot, "caller's dictionaries were changed", "deco:mutated")
