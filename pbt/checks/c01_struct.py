"""C01: closed-form certificates are exact identities."""
import functools
import json
import os

from hypothesis import strategies as st
import sympy as sp

from .. import evalx, gen, ineq
from ..cert import _expand_cyclic, check_certificate, constraints, names
from ..core import Check
from ..env import ROOT

CHECK = Check("C01", rule="an inequality (documented one, mutated one, or member of a symmetric/cyclic/acyclic family) "
              "with named nonnegativity constraints; if the closed-form solver answers, the certificate, with names "
              "replaced by the constraints and cyclic sums evaluated from their definition, must equal the polynomial. "
              "Non-trivial: the solver returned a certificate.")

SIGNS = ["none", "self", "self", "self", "func", "sym", "scaled", "cubed", "missing"]


def solve(ctx, p, n, case, acute=False):
    from triples.core import StructuralSOS
    syms = names(case["names"], n)
    con, back = constraints(case["con"], syms, acute)
    target = ineq.to_poly(p, syms)
    arg = target if case.get("as_poly", True) else target.as_expr()
    sol = StructuralSOS(arg, con)
    ctx.label("con:" + case["con"], "deg%d" % ineq.pdeg(p))
    if sol is None:
        ctx.label("no answer")
        return None
    ctx.nontrivial()
    ctx.label("answered", "answered deg%d" % ineq.pdeg(p))
    check_certificate(ctx, sol.solution, target.as_expr(), syms, back, "StructuralSOS")
    return sol


def _common(d):
    d.update({"names": st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9]), "con": st.sampled_from(SIGNS), "as_poly": st.booleans()})
    return st.fixed_dictionaries(d)


def _doc_case():
    return _common({"i": st.integers(0, ineq.n_corpus() - 1), "muts": st.lists(ineq.mutation(), max_size=3)})


def _doc_all(tier):
    out = []
    for i in range(ineq.n_corpus()):
        for con, nm in (("self", 0), ("none", 0), ("func", 2), ("self", 3)):
            out.append({"i": i, "muts": [], "names": nm, "con": con, "as_poly": True})
    return out


@CHECK.sub("documented", None, quick=0, thorough=0, enumerated=_doc_all, case_timeout=60,
           rule="every inequality listed in the source's documentation, over the reals, over the orthant, under named "
                "constraints and under renamed/swapped variables")
def documented(case, ctx):
    n, p = ineq.corpus_poly(case["i"])
    if n == 3 and all(e[2] == 0 for e in p):
        n, p = 2, {e[:2]: c for e, c in p.items()}
    p = ineq.mutate(n, p, case["muts"])
    if not p:
        ctx.skip("zero")
    if case["names"] % 2 == 0 and case["names"]:
        ctx.label("renamed")
    solve(ctx, p, n, case)


@CHECK.sub("mutated", _doc_case, quick=2200, thorough=60000, shards=4, case_timeout=30,
           rule="a documented inequality after up to three mutations (scaling, adding squares or monomials, "
                "multiplying, permuting or renaming variables, powers, small coefficient changes)")
def mutated(case, ctx):
    documented_case(case, ctx)


def documented_case(case, ctx):
    n, p = ineq.corpus_poly(case["i"])
    p = ineq.mutate(n, p, case["muts"])
    if not p:
        ctx.skip("zero")
    ctx.label(*["mut:" + m[0] for m in case["muts"]])
    solve(ctx, p, n, case)


# ---------------------------------------------------------------- inputs found by coverage-guided search (tools/guided.py)
def _guided_all(tier):
    p = os.path.join(ROOT, "pbt", "data", "c01_guided.json")
    return json.load(open(p)) if os.path.exists(p) else []


@functools.lru_cache(None)
def _guided_seeds():
    return _guided_all("quick")


def _guided_case():
    num = st.one_of(st.integers(-6, 6).map(str), st.sampled_from(["1", "-1", "1/2", "-1/3", "1/50", "-1/50"]))
    mut = st.tuples(st.sampled_from(["set", "add", "drop", "center", "zero", "square", "square"]), st.integers(0, 200), num, st.integers(0, 3)).map(list)
    return st.tuples(st.integers(0, max(len(_guided_seeds()) - 1, 0)), st.lists(mut, min_size=1, max_size=3), st.sampled_from([None, None] + SIGNS), st.booleans()).map(list)


def _guided_mutate(case):
    i, muts, con, sym = case
    seeds = _guided_seeds()
    s = dict(seeds[i % len(seeds)])
    n = s["n"]
    p = {tuple(e): sp.sympify(c) for c, e in s["f"]}
    ms = ineq._monos_of_degree(n, ineq.pdeg(p)) if ineq.ishom(p) else sorted(p)
    g = next((g for g in ("sym", "cyc") if all(ineq.pact(p, x) == p for x in ineq.group_elements(g, n))), None) if sym else None
    els = ineq.group_elements(g, n) if g else [tuple(range(n))]
    for what, j, c, k in muts:
        m = ms[j % len(ms)]
        c = sp.Rational(c)
        orb = {e: sp.Integer(1) for e in ineq.pcyc({m: sp.Integer(1)}, els)}
        if what == "set":
            p = ineq.padd(p, ineq.pscale(orb, c - p.get(m, 0)))
        elif what == "add":
            p = ineq.padd(p, ineq.pscale(orb, c))
        elif what == "drop":
            p = {e: v for e, v in p.items() if e not in orb}
        elif what == "square":
            # something nonnegative is added, so that there is still something to prove
            d = ineq.pdeg(p)
            half = ineq._monos_of_degree(n, d // 2)
            q = ineq.padd({half[j % len(half)]: sp.Integer(1)}, {half[(j // 7 + k) % len(half)]: sp.Integer(-1)})
            q = ineq.pmul(q, q)
            if d % 2:
                q = ineq.pmul(q, {tuple(int(i == k % n) for i in range(n)): sp.Integer(1)})
            p = ineq.padd(p, ineq.pscale(ineq.pcyc(q, els), abs(c)))
        else:
            x = [1] * n if what == "center" else [[0, 1, 1, 1], [1, 1, 2, 1], [0, 1, 2, 1], [1, 2, 0, 3]][k][:n]
            v, w = ineq.peval(p, x), ineq.peval(orb, x)
            if w:
                p = ineq.padd(p, ineq.pscale(orb, -sp.radsimp(v / w)))
    s["f"] = [[str(c), list(e)] for e, c in sorted(p.items())]
    if con is not None:
        s["con"] = con
    return s


@CHECK.sub("guided", None, quick=0, thorough=0, enumerated=_guided_all, case_timeout=30,
           rule="inputs which together take every branch of the closed-form solver that a coverage-guided search reached")
def guided(case, ctx):
    p = {tuple(e): sp.sympify(c) for c, e in case["f"]}
    p = {e: c for e, c in p.items() if c != 0}
    if not p:
        ctx.skip("zero")
    acute = bool(case.get("acute")) and case["n"] == 3
    if acute and case["con"] in ("none", "missing"):
        case = dict(case, con="self")
    solve(ctx, p, case["n"], case, acute=acute)


@CHECK.sub("guided_mutated", _guided_case, quick=2000, thorough=60000, shards=6, case_timeout=30,
           rule="one of the inputs found by the coverage-guided search after up to three changes of coefficients")
def guided_mutated(case, ctx):
    if not _guided_seeds():
        ctx.skip("no seeds")
    guided(_guided_mutate(case), ctx)


def _fam_case(n, degs, groups):
    return st.tuples(st.sampled_from(degs), st.sampled_from(groups)).flatmap(
        lambda t: _common({"f": ineq.family(n, t[0], t[1])}))


def _run_family(case, ctx):
    f = case["f"]
    p = ineq.family_poly(f)
    if not p:
        ctx.skip("zero")
    ctx.label("group:" + f["g"], "family %s%d" % (f["g"], f["d"]))
    solve(ctx, p, f["n"], case)


@CHECK.sub("cyclic3", lambda: _fam_case(3, [2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 9], ["cyc", "sym"]), quick=2500, thorough=60000,
           shards=5, case_timeout=30, rule="random cyclic or symmetric ternary form of degree 2-9")
def cyclic3(case, ctx):
    _run_family(case, ctx)


@CHECK.sub("acyclic3", lambda: _fam_case(3, [2, 3, 4, 4], ["none"]), quick=800, thorough=20000, shards=1, case_timeout=30,
           rule="random ternary form of degree 2-4 without symmetry")
def acyclic3(case, ctx):
    _run_family(case, ctx)


@CHECK.sub("quaternary", lambda: _fam_case(4, [2, 3, 3, 4, 4], ["sym", "cyc", "part", "part", "none"]), quick=800, thorough=20000,
           shards=2, case_timeout=40, rule="random quaternary form, symmetric, cyclic, or symmetric in three variables")
def quaternary(case, ctx):
    _run_family(case, ctx)


def _nvar_case():
    return st.tuples(st.integers(5, 6), st.sampled_from([(4, "sym"), (2, "none"), (2, "sym"), (2, "cyc")])).flatmap(
        lambda t: _common({"f": ineq.family(t[0], t[1][0], t[1][1])}))


@CHECK.sub("nvars", _nvar_case, quick=120, thorough=2000, shards=1, case_timeout=60,
           rule="5-6 variables: symmetric quartics and quadratic forms")
def nvars(case, ctx):
    f = case["f"]
    if f["n"] == 6 and f["g"] == "sym" and f["d"] == 4 and len(f["blocks"]) > 2:
        f = dict(f, blocks=f["blocks"][:2])
    p = ineq.family_poly(f)
    if not p:
        ctx.skip("zero")
    ctx.label("family %s%d n%d" % (f["g"], f["d"], f["n"]))
    case = dict(case, names=8 if f["n"] <= 4 else 0)
    from triples.core import StructuralSOS
    syms = [sp.Symbol("x%d" % i) for i in range(f["n"])] if case["as_poly"] else [sp.Symbol(x) for x in "abcdefg"[:f["n"]]]
    con, back = constraints(case["con"], syms)
    target = ineq.to_poly(p, syms)
    sol = StructuralSOS(target, con)
    if sol is None:
        ctx.label("no answer")
        return
    ctx.nontrivial()
    ctx.label("answered")
    check_certificate(ctx, sol.solution, target.as_expr(), syms, back, "StructuralSOS")


# ---------------------------------------------------------------- two variables and one variable
def _uni_case():
    term = st.tuples(st.integers(0, 1), st.lists(st.integers(-5, 5), min_size=1, max_size=3), st.integers(1, 3)).map(list)
    raw = st.lists(st.integers(-8, 8), min_size=2, max_size=7)
    con = st.lists(st.tuples(st.integers(-3, 3), st.integers(-3, 3), st.sampled_from(["self", "F", "sym"])).map(list), max_size=3)
    return st.fixed_dictionaries({"terms": st.lists(term, min_size=0, max_size=3), "raw": st.one_of(st.just([]), raw),
                                  "cons": con, "hom": st.booleans(), "roots": st.lists(gen.rats(4, 3), max_size=2),
                                  "names": st.sampled_from([["x", "y"], ["a", "b"], ["b", "a"], ["t", "x"]])})


@CHECK.sub("bivariate", _uni_case, quick=2500, thorough=40000, shards=2, case_timeout=30,
           rule="univariate polynomial (possibly homogenised to two variables) with linear constraints")
def bivariate(case, ctx):
    from triples.core import StructuralSOS
    x, y = [sp.Symbol(s) for s in case["names"]]
    f = sp.Integer(0)
    for k, q, mult in case["terms"]:
        qq = sum(c * x**i for i, c in enumerate(q))
        f += mult * qq**2 * (x if k else 1)
    f += sum(c * x**i for i, c in enumerate(case["raw"]))
    f = sp.expand(f)
    for r in case["roots"]:
        f = sp.expand(f * (x - gen.R(r)))
    P = sp.Poly(f, x)
    if P.is_zero or P.degree() < 1 or P.degree() > 9:
        ctx.skip("degenerate")
    hom = case["hom"]
    if hom:
        P = P.homogenize(y)
    gens = (x, y) if hom else (x,)
    con, back = {}, {}
    for i, (u, v, nm) in enumerate(case["cons"]):
        e = u * x + v * (y if hom else 1)
        if not e.free_symbols:
            continue
        name = e if nm == "self" else (sp.Symbol("h%d" % i) if nm == "sym" else sp.Function("F%d" % i)(x))
        if e in con:
            continue
        con[e] = name
        if name != e:
            back[name] = e
    ctx.label("hom" if hom else "uni", "cons%d" % len(con))
    sol = StructuralSOS(P, con)
    if sol is None:
        ctx.label("no answer")
        return
    ctx.label("answered deg%d" % P.total_degree(), "answered with constraint" if con else "answered")
    ctx.nontrivial()
    check_certificate(ctx, sol.solution, P.as_expr(), gens, back, "StructuralSOS")


# ---------------------------------------------------------------- sparse ternary forms of high degree
def _sparse_part():
    e = st.integers(0, 6)
    w = st.sampled_from(["1", "1", "2", "1/2", "3", "-1/4"])
    small = st.integers(0, 5)
    return st.one_of(
        st.tuples(st.just("pair"), st.tuples(e, e, e).map(list), st.tuples(st.integers(-3, 4), st.integers(-3, 4)).map(list), w, st.sampled_from(["1", "1", "1/2", "3/4"])),
        st.tuples(st.just("center"), st.integers(1, 5), st.tuples(st.integers(0, 15), st.integers(0, 15)).map(list), w, st.sampled_from(["1", "1", "1/2"])),
        st.tuples(st.just("three"), st.tuples(e, e, e).map(list), st.tuples(st.integers(-2, 3), st.integers(-2, 3), st.integers(-2, 3), st.integers(-2, 3)).map(list), w, st.sampled_from(["1", "2", "1/2"])),
        st.tuples(st.just("H"), st.integers(-4, 6), st.integers(0, 5), st.integers(1, 3), w),
        st.tuples(st.just("P"), small, st.integers(1, 3), small, st.integers(1, 3), w),
        st.tuples(st.just("border"), small, st.lists(st.integers(-3, 3), min_size=2, max_size=4), st.integers(0, 3), w),
        st.tuples(st.just("anti"), st.tuples(small, small, small).map(list), st.booleans(), w),
        st.tuples(st.just("mix"), st.sampled_from([6, 7, 8, 8, 8, 9, 10, 11, 12]), st.lists(st.tuples(
            st.sampled_from(["anti", "anti", "four", "four", "square"]), st.integers(0, 20), st.integers(0, 20), st.integers(-3, 6)).map(list), min_size=1, max_size=5),
            st.booleans(), st.sampled_from(["1", "1", "1/3"]))).map(list)


def _sparse_poly(parts, k, abc):
    cyc, sym = ineq.group_elements("cyc", 3), ineq.group_elements("sym", 3)
    out, d = {}, None
    mono = lambda e: {tuple(e): sp.Integer(1)}
    diff = lambda i, j, r: ineq.padd(mono([r * (x == i) for x in range(3)]), ineq.pscale(mono([r * (x == j) for x in range(3)]), -1))
    for q in parts:
        kind, w = q[0], sp.Rational(q[-2] if q[0] in ("pair", "center", "three") else q[-1])
        if kind == "pair":      # s(m1) >= c s(m2)
            m1 = q[1]
            m2 = [m1[0] + q[2][0], m1[1] + q[2][1], m1[2] - q[2][0] - q[2][1]]
            if min(m2) < 0: continue
            p = ineq.pcyc(ineq.padd(mono(m1), ineq.pscale(mono(m2), -sp.Rational(q[4]))), cyc)
        elif kind == "center":  # s(m1) >= 3c (abc)^n
            n, (i, j) = q[1], q[2]
            i %= 3 * n + 1
            j %= 3 * n - i + 1
            p = ineq.pcyc(ineq.padd(mono([i, j, 3 * n - i - j]), ineq.pscale(mono([n, n, n]), -sp.Rational(q[4]))), cyc)
        elif kind == "three":
            m1, t = q[1], q[2]
            m2 = [m1[0] + t[0], m1[1] + t[1], m1[2] - t[0] - t[1]]
            m3 = [m1[0] + t[2], m1[1] + t[3], m1[2] - t[2] - t[3]]
            if min(m2 + m3) < 0: continue
            c = sp.Rational(q[4])
            p = ineq.pcyc(ineq.padd(mono(m1), ineq.pscale(mono(m2), c), ineq.pscale(mono(m3), -1 - c)), cyc)
        elif kind == "H":       # s(a^n (b^m + c^m)(a^r - b^r)(a^r - c^r))
            n, m, r = q[1], q[2], q[3]
            h = ineq.pmul(diff(0, 1, r), diff(0, 2, r))
            h = ineq.pmul(h, mono([n, 0, 0]) if n >= 0 else mono([0, -n, -n]))
            p = ineq.pcyc(ineq.pmul(h, ineq.padd(mono([0, m, 0]), mono([0, 0, m]))), cyc)
        elif kind == "P":       # s(a^n (b^r - c^r)) s(a^m (b^s - c^s))
            n, r, m, s = q[1:5]
            p = ineq.pmul(ineq.pcyc(ineq.pmul(mono([n, 0, 0]), diff(1, 2, r)), cyc), ineq.pcyc(ineq.pmul(mono([m, 0, 0]), diff(1, 2, s)), cyc))
        elif kind == "border":  # all coefficients on the border of the triangle
            i, c, j = q[1], q[2], q[3]
            sq = {}
            for x, v in enumerate(c):
                sq = ineq.padd(sq, {(len(c) - 1 - x, x, 0): sp.Integer(v)}) if v else sq
            if not sq: continue
            p = ineq.pcyc(ineq.pmul(ineq.pmul(sq, sq), mono([i, j, 0])), cyc)
        elif kind == "mix":     # multiples of (a-b)^2 (b-c)^2 (c-a)^2, s(m (a-b)^2 (a-c)^2) and s(m (m1 - m2)^2) of one degree
            p = {}
            v = ineq.pmul(ineq.pmul(diff(0, 1, 1), diff(1, 2, 1)), diff(2, 0, 1))
            u = ineq.pmul(diff(0, 1, 1), diff(0, 2, 1))
            for what, i, j, c in q[2]:
                D = q[1] - {"anti": 6, "four": 4, "square": q[1] % 2}[what]
                ms = ineq._monos_of_degree(3, D)
                if what == "square":
                    ms = ineq._monos_of_degree(3, D // 2)
                    t = ineq.padd(mono(ms[i % len(ms)]), ineq.pscale(mono(ms[j % len(ms)]), -1))
                    t = ineq.pmul(ineq.pmul(t, t), mono([q[1] % 2, 0, 0]))
                else:
                    t = v if what == "anti" else u
                    t = ineq.pmul(ineq.pmul(t, t), mono(ms[(i + j) % len(ms)]))
                p = ineq.padd(p, ineq.pscale(ineq.pcyc(t, sym if q[3] else cyc), c if what == "anti" else abs(c)))
        else:                   # (a-b)^2 (b-c)^2 (c-a)^2 times something
            v = ineq.pmul(ineq.pmul(diff(0, 1, 1), diff(1, 2, 1)), diff(2, 0, 1))
            p = ineq.pmul(ineq.pmul(v, v), ineq.pcyc(mono(q[1]), sym if q[2] else cyc))
        p = {e: c for e, c in p.items() if c}
        if not p or (d is not None and ineq.pdeg(p) != d): continue
        d = ineq.pdeg(p)
        out = ineq.padd(out, ineq.pscale(p, w))
    out = {e: c for e, c in out.items() if c}
    if k > 1:
        out = {tuple(k * x for x in e): c for e, c in out.items()}
    return {tuple(x + abc for x in e): c for e, c in out.items()}


@CHECK.sub("sparse", lambda: _common({"parts": st.lists(_sparse_part(), min_size=1, max_size=3), "k": st.sampled_from([1, 1, 1, 1, 2, 3]), "abc": st.sampled_from([0, 0, 0, 1, 2])}),
           quick=1200, thorough=40000, shards=3, case_timeout=30,
           rule="ternary forms with few terms and degree up to 20: differences of orbits of monomials, products of alternating sums, Schur-like "
                "sums, forms with all terms on the border, multiples of the squared discriminant, and sums of these")
def sparse(case, ctx):
    p = _sparse_poly(case["parts"], case["k"], case["abc"])
    if not p:
        ctx.skip("zero")
    d = ineq.pdeg(p)
    if d > 20 or len(p) > 80:
        ctx.skip("large")
    ctx.label(*["part:" + q[0] for q in case["parts"][:1]])
    solve(ctx, p, 3, case)


def _sparse_all(tier):
    top, htop = (12, 14) if tier == "quick" else (20, 20)
    orbits = lambda d: sorted({max((i, j, d - i - j), (j, d - i - j, i), (d - i - j, i, j)) for i in range(d + 1) for j in range(d - i + 1)})
    out = [["two", list(x), list(y)] for d in range(2, top + 1) for x in orbits(d) for y in orbits(d) if x != y]
    for n in range(-htop // 2, htop + 1):
        for m in range(0, htop + 1):
            for r in range(1, htop // 2):
                d = n * (1 if n >= 0 else -2) + m + 2 * r
                if d > htop or max(n, m, r) > htop // 2 + 2:
                    continue
                out.append(["parts", [["H", n, m, r, "1"]]])
                for q in (1, 2):      # with a remainder that is not symmetric
                    e = [d - 2 * (d // 3) + q, d // 3, d // 3 - q]
                    if min(e) >= 0 and d > 6:
                        out.append(["parts", [["H", n, m, r, "2"], ["pair", e, [-1, 0], "1", "1"]]])
    ptop = htop - 2
    out += [["parts", [["P", n, r, m, s, "1"]]] for n in range(7) for r in range(1, 4) for m in range(n, 7) for s in range(1, 4) if n + m + r + s <= ptop]
    return out


@CHECK.sub("sparse_all", None, quick=0, thorough=0, enumerated=_sparse_all, case_timeout=60,
           rule="all differences of two orbits of monomials up to degree 12 (20), all Schur-like sums up to degree 14 (20) alone and with a "
                "remainder, all products of two alternating sums up to degree 12 (18)")
def sparse_all(case, ctx):
    if case[0] == "two":
        cyc = ineq.group_elements("cyc", 3)
        p = ineq.padd(ineq.pcyc({tuple(case[1]): sp.Integer(1)}, cyc), ineq.pscale(ineq.pcyc({tuple(case[2]): sp.Integer(1)}, cyc), -1))
        p = {e: c for e, c in p.items() if c}
    else:
        p = _sparse_poly(case[1], 1, 0)
    if not p:
        ctx.skip("zero")
    solve(ctx, p, 3, {"con": "self", "names": 0})


# ---------------------------------------------------------------- constrained to acute triangles
def _acute_case():
    return st.tuples(st.sampled_from([2, 2, 3, 3, 4, 4, 5, 6, 6, 7, 8, 9]), st.sampled_from(["sym", "sym", "cyc"])).flatmap(
        lambda t: _common({"f": ineq.family(3, t[0], t[1]), "only": st.sampled_from([False, False, t[0] > 5]),
                           "tri": st.lists(st.tuples(st.integers(0, 1) if t[0] < 5 else st.integers(0, 4), gen.hom_exponents(3, max(t[0] - 2, 0)), st.integers(1, 4)).map(list), min_size=1, max_size=2)}))


@CHECK.sub("acute", _acute_case, quick=900, thorough=20000, shards=2, case_timeout=40,
           rule="cyclic or symmetric ternary form under a,b,c >= 0 and b^2+c^2-a^2 >= 0 etc.; the generator adds terms "
                "containing the constraint so that it is needed")
def acute(case, ctx):
    f = case["f"]
    p = {} if case.get("only") else ineq.family_poly(f)
    a, b, c = [ineq.pvar(i, 3) for i in range(3)]
    els = ineq.group_elements(f["g"], 3)
    tri = ineq.padd(ineq.pmul(b, b), ineq.pmul(c, c), ineq.pscale(ineq.pmul(a, a), -1))
    for k, m, w in case["tri"]:
        if sum(m) + 2 != f["d"]:
            continue
        t = ineq.pmul(tri, {tuple(m): sp.Integer(w)})
        if k and f["d"] >= 4:
            m = list(m)
            t = ineq.pmul(tri, ineq.pscale(ineq.pmul(ineq.ppow(a, f["d"] - 4, 3), ineq.pmul(ineq.padd(a, ineq.pscale(b, -1)), ineq.padd(a, ineq.pscale(b, -1)))), w))
        if k >= 2:
            ab, ac, bc = [ineq.padd(x, ineq.pscale(y, -1)) for x, y in ((a, b), (a, c), (b, c))]
            disc = ineq.pmul(ineq.pmul(ineq.pmul(ab, ab), ineq.pmul(ac, ac)), ineq.pmul(bc, bc))
            d = f["d"] - (4 if k <= 3 else 8)
            if d < 0 or (k == 3 and d < 2):
                continue
            e = [m[0] % (d + 1), 0, 0]
            e[1] = m[1] % (d - e[0] + 1)
            e[2] = d - e[0] - e[1]
            t = ineq.pmul(ineq.padd({tuple(e): sp.Integer(w)}, {(e[0], e[2], e[1]): sp.Integer(w)}), tri)
            if k == 2:      # a multiple of 2 - a^2 on b = c = 1
                t = ineq.pmul(ineq.pmul(ab, ac), t)
            elif k == 3:    # nothing but the discriminant
                t = ineq.pmul(disc, {tuple(x - y for x, y in zip(e, [2, 0, 0])): sp.Integer(w)}) if e[0] >= 2 else {}
            else:
                t = ineq.pmul(disc, t)
        p = ineq.padd(p, ineq.pcyc(t, els))
    if f["center"] and p:
        v = sum(p.values(), sp.Integer(0))
        m = ineq.pcyc({(f["d"], 0, 0): sp.Integer(1)} if f["center"] == 1 else {tuple([f["d"] - 1, 1, 0]): sp.Integer(1)}, els)
        p = ineq.padd(p, ineq.pscale(m, -v / sum(m.values(), sp.Integer(0))))
    if not p:
        ctx.skip("zero")
    ctx.label("acute %s%d" % (f["g"], f["d"]))
    from triples.core import StructuralSOS
    syms = names(case["names"], 3)
    con, back = constraints(case["con"] if case["con"] not in ("missing",) else "self", syms, acute=True)
    if case["con"] == "none":
        con, back = constraints("self", syms, acute=True)
        con = {k: v for k, v in con.items() if not k.is_Symbol}
    target = ineq.to_poly(p, syms)
    sol = StructuralSOS(target, con)
    if sol is None:
        ctx.label("no answer")
        return
    used = sol.solution.has(*[v for k, v in con.items() if not k.is_Symbol and k.is_Add]) if con else False
    ctx.nontrivial()
    ctx.label("answered acute deg%d" % f["d"])
    check_certificate(ctx, sol.solution, target.as_expr(), syms, back, "StructuralSOS")


# ---------------------------------------------------------------- not homogeneous
@CHECK.sub("nonhomogeneous", lambda: st.tuples(_common({"f": st.sampled_from([(3, 2, "cyc"), (3, 3, "cyc"), (3, 4, "sym"), (4, 3, "part"), (4, 3, "part"),
                                                                              (4, 2, "none"), (4, 3, "sym"), (4, 4, "sym"), (3, 4, "cyc"), (3, 6, "sym"), (3, 2, "none"), (2, 4, "none"), (2, 3, "none")]).flatmap(
    lambda t: ineq.family(*t)), "drop": st.integers(0, 3)})).map(lambda t: t[0]), quick=1200, thorough=25000, shards=1, case_timeout=40,
           rule="a form with one variable set to 1")
def nonhomogeneous(case, ctx):
    from triples.core import StructuralSOS
    f = case["f"]
    n = f["n"]
    p = ineq.family_poly(f)
    k = (n - 1) if f["g"] == "part" else case["drop"] % n
    q = {}
    for e, c in p.items():
        e = tuple(x for i, x in enumerate(e) if i != k)
        q[e] = q.get(e, 0) + c
    q = {e: c for e, c in q.items() if c != 0}
    if not q:
        ctx.skip("zero")
    ctx.label("family %s%d" % (f["g"], f["d"]))
    solve(ctx, q, n - 1, case)
