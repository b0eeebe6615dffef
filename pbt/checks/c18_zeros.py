"""C18: zeros, Newton polytopes and Gram equations never exclude a sum-of-squares representation, and describe only representations."""
from fractions import Fraction as F

from hypothesis import strategies as st
import sympy as sp

from .. import gen, ineq, lin, prob, sdpgen
from ..core import Check
from .c03_sdp import _group, _gram_value, _monos

CHECK = Check("C18", rule="a representation f = sum over the group of g_k m'S_k m (+ equality multipliers) is drawn first, with zeros planted at rational or "
              "algebraic, interior or boundary points; everything the SDP solver derives from f and its constraints must hold for these S_k. "
              "Non-trivial: some derived constraint is a real restriction, or the Gram family has free parameters.")

# minimal polynomials (low to high) of the field generators, with a SymPy value of a real root
FIELDS = {"q": ([0, 1], sp.Integer(0)), "r2": ([-2, 0, 1], sp.sqrt(2)), "r3": ([-3, 0, 1], sp.sqrt(3)), "gold": ([-1, -1, 1], (1 + sp.sqrt(5)) / 2),
          "c2": ([-2, 0, 0, 1], sp.Integer(2)**sp.Rational(1, 3)), "cub": ([1, -3, 0, 1], None)}


def _value(name):
    if name == "cub":
        x = sp.Symbol("x")
        return sp.CRootOf(x**3 - 3 * x + 1, 2)
    return FIELDS[name][1]


# ---------------------------------------------------------------- arithmetic in Q[t]/(m)
def _red(p, m):
    p, k = list(p), len(m) - 1
    while len(p) > k:
        c = p.pop()
        for i in range(k):
            p[len(p) - k + i] -= c * m[i]
    return p + [F(0)] * (k - len(p))


def _fmul(p, q, m):
    out = [F(0)] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        if a:
            for j, b in enumerate(q):
                out[i + j] += a * b
    return _red(out, m)


def _eval(p, pt, m):
    """Value of a polynomial (exponents -> rational) at a point over the field."""
    r = [F(0)] * (len(m) - 1)
    for e, c in p.items():
        t = [F(0)] * (len(m) - 1)
        t[0] = F(int(c.p), int(c.q)) if hasattr(c, "p") else F(c)
        for x, k in zip(pt, e):
            for _ in range(k):
                t = _fmul(t, x, m)
        r = [a + b for a, b in zip(r, t)]
    return r


def _point(P, n):
    """Coordinates as field elements; P = [field, [[a, b], ...]]"""
    m = FIELDS[P[0]][0]
    k = len(m) - 1
    return [_red([F(a), F(b)] if k > 1 else [F(a)], m) for a, b in P[1][:n]], m


def _sympoint(P, n):
    t = _value(P[0])
    return tuple(sp.expand(a + b * t) if P[0] != "q" else sp.Integer(a) for a, b in P[1][:n])


# ---------------------------------------------------------------- strategies
@st.composite
def _zero(draw, n):
    kind = draw(st.sampled_from(["bin", "bin", "bin", "rat", "rat", "alg", "alg", "neg"]))
    if kind == "bin":
        c = draw(st.lists(st.integers(0, 1), min_size=n, max_size=n))
        s = draw(st.sampled_from([1, 1, 1, 2]))
        return ["q", [[s * v, 0] for v in c]]
    if kind == "rat":
        return ["q", [[v, 0] for v in draw(st.lists(st.integers(0, 3), min_size=n, max_size=n))]]
    if kind == "neg":
        return ["q", [[v, 0] for v in draw(st.lists(st.integers(-2, 2), min_size=n, max_size=n))]]
    f = draw(st.sampled_from(["r2", "r3", "gold", "c2", "cub"]))
    return [f, draw(st.lists(st.tuples(st.integers(0, 2), st.integers(0, 1)).map(list), min_size=n, max_size=n))]


def _gens(n):
    lin_ = st.lists(st.integers(-1, 2), min_size=n, max_size=n)
    return st.lists(st.one_of(st.just(["one"]), st.just(["one"]), st.tuples(st.just("mono"), st.lists(st.integers(0, 1), min_size=n, max_size=n)).map(list),
                              st.just(["vars"]), st.tuples(st.just("mono"), st.lists(st.integers(0, 2), min_size=n, max_size=n)).map(list),
                              st.tuples(st.just("lin"), lin_).map(list), st.tuples(st.just("diff"), st.integers(0, n - 1), st.integers(1, n - 1)).map(list),
                              st.tuples(st.just("diff"), st.integers(0, n - 1), st.integers(1, n - 1)).map(list), st.tuples(st.just("negvar"), st.integers(0, n - 1)).map(list),
                              st.tuples(st.just("quad"), st.lists(st.integers(-1, 2), min_size=n, max_size=n), st.integers(-2, 2)).map(list)),
                    min_size=1, max_size=5)


def _rows():
    return st.lists(st.lists(st.integers(-2, 2), min_size=1, max_size=6), min_size=1, max_size=2)


@st.composite
def _case(draw, ns=(2, 3, 3, 3, 4)):
    n = draw(st.sampled_from(list(ns)))
    k = draw(st.integers(0, 2))
    return {"n": n, "d": draw(st.integers(1, {2: 6, 3: 6, 4: 4}[n])), "group": draw(st.sampled_from(prob.GROUPS[n])),
            "gens": draw(_gens(n)), "zeros": [draw(_zero(n)) for _ in range(k)],
            "forms": [draw(_rows()) for _ in range(8)], "style": draw(st.sampled_from(["ideal", "ideal", "mono", "mono", "mixed"])),
            "weights": draw(st.lists(gen.rats(4, 3, nonzero=True), min_size=4, max_size=4)), "relax": draw(st.booleans()),
            "eqs": draw(st.lists(st.lists(st.integers(-1, 1), min_size=n, max_size=n), min_size=0, max_size=1)) if draw(st.integers(0, 3)) == 0 else [],
            "mult": draw(st.lists(st.integers(-2, 2), min_size=3, max_size=6)), "y": draw(st.lists(gen.rats(4, 3), min_size=4, max_size=8)),
            "asked": draw(st.integers(0, 3))}


def _constraint(c, n):
    if c[0] == "one":
        return [ineq.pconst(1, n)]
    if c[0] == "vars":
        return [ineq.pvar(i, n) for i in range(n)]
    if c[0] == "mono":
        return [{tuple(c[1]): sp.Integer(1)}]
    if c[0] == "negvar":
        return [ineq.pscale(ineq.pvar(c[1], n), -1)]
    if c[0] == "diff":
        return [ineq.padd(ineq.pvar((c[1] + c[2]) % n, n), ineq.pscale(ineq.pvar(c[1], n), -1))]
    if c[0] == "lin":
        return [ineq.padd(*[ineq.pscale(ineq.pvar(i, n), v) for i, v in enumerate(c[1])])]
    q = ineq.padd(*[ineq.pscale(ineq.ppow(ineq.pvar(i, n), 2, n), v) for i, v in enumerate(c[1])])
    return [ineq.padd(q, ineq.pscale(ineq.pmul(ineq.pvar(0, n), ineq.pvar(n - 1, n)), c[2]))]


class Rep:
    """A planted representation."""
    def __init__(self, case, ctx):
        n, d = self.n, self.d = case["n"], case["d"]
        self.els = ineq.group_elements(case["group"], n)
        self.syms = sp.symbols("a b c d")[:n]
        orbit = []
        for Z in case["zeros"]:
            pt, m = _point(Z, n)
            for g in self.els:
                q = [pt[g[i]] for i in range(n)]
                if (q, m) not in orbit:
                    orbit.append((q, m))
        self.gens, self.S, self.monos = [], [], []
        total = {}
        want = []
        for c in case["gens"]:
            for q in _constraint(c, n):
                if q and (d - ineq.pdeg(q)) % 2 == 1 and c[0] != "vars":
                    q = ineq.pmul(q, ineq.pvar(len(want) % n, n))
                if q and ineq.pdeg(q) <= d and (d - ineq.pdeg(q)) % 2 == 0 and q not in want:
                    want.append(q)
        want = want[:6]
        if not want:
            want = [ineq.pconst(1, n)] if d % 2 == 0 else [ineq.pvar(i, n) for i in range(n)]
        for idx, q in enumerate(want):
            monos = _monos(n, (d - ineq.pdeg(q)) // 2)
            rows = []
            for pt, m in orbit:
                if case["relax"] and not any(_eval(q, pt, m)):
                    continue
                vals = [_eval({e: F(1)}, pt, m) for e in monos]
                for j in range(len(m) - 1):
                    rows.append([v[j] for v in vals])
            ker = sdpgen.kernel(rows, len(monos)) if any(any(r) for r in rows) else [[F(int(i == j)) for j in range(len(monos))] for i in range(len(monos))]
            if case["style"] != "ideal" and ker:
                # prefer sparse vectors: keep the kernel vectors with the fewest terms
                ker = sorted(ker, key=lambda v: sum(map(bool, v)))
                if case["style"] == "mono":
                    ker = ker[: 1 + idx % 2] + ker[-1:]
            S = [[F(0)] * len(monos) for _ in monos]
            for w, co in zip(case["weights"], case["forms"][idx] or ([[1, -1]] if idx == 0 else [])):
                v = [F(0)] * len(monos)
                for c, b in [(co[j % len(co)] if j < 2 * len(co) else 0, b) for j, b in enumerate(ker)]:
                    if c:
                        v = [x + c * y for x, y in zip(v, b)]
                w = abs(gen.R(w))
                w = F(int(w.p), int(w.q))
                for i in range(len(monos)):
                    if v[i]:
                        for j in range(len(monos)):
                            S[i][j] += w * v[i] * v[j]
            if all(ineq.padd(ineq.pact(q, g), ineq.pscale(q, -1)) == {} for g in self.els):
                # average over the group: same polynomial, and the solver only looks for such matrices
                pos = {e: i for i, e in enumerate(monos)}
                A = [[F(0)] * len(monos) for _ in monos]
                for g in self.els:
                    im = []
                    for e in monos:
                        f = [0] * n
                        for i, k in enumerate(e):
                            f[g[i]] += k
                        im.append(pos[tuple(f)])
                    for i in range(len(monos)):
                        for j in range(len(monos)):
                            A[im[i]][im[j]] += S[i][j] / len(self.els)
                S = A
            self.gens.append(q)
            self.S.append(S)
            self.monos.append(monos)
            M = lin.to_sympy(S, len(S))
            total = ineq.padd(total, ineq.pmul(_gram_value(M, monos, n), q))
        self.h, self.hmon = [], []
        for v in case["eqs"]:
            q = ineq.padd(*[ineq.pscale(ineq.pvar(i, n), x) for i, x in enumerate(v)])
            if not q or ineq.pdeg(q) > d:
                continue
            monos = _monos(n, d - 1)
            self.h.append(q)
            self.hmon.append(monos)
            p = {e: sp.Integer(case["mult"][i % len(case["mult"])]) for i, e in enumerate(monos) if i < len(case["mult"]) and case["mult"][i % len(case["mult"])]}
            total = ineq.padd(total, ineq.pmul(p, q))
        self.f = ineq.pcyc(total, self.els)
        self.orbit = orbit

    def poly(self, q):
        return ineq.to_poly(q, self.syms)


def _residual_in_ideal(R, res, ctx):
    """Is the polynomial a symmetrised combination of equality constraints?"""
    cols = []
    for q, monos in zip(R.h, R.hmon):
        for e in monos:
            cols.append(ineq.pcyc(ineq.pmul({e: sp.Integer(1)}, q), R.els))
    support = sorted({e for c in cols for e in c} | set(res))
    conv = lambda c: F(int(c.p), int(c.q))
    rows = [[conv(sp.Rational(c.get(e, 0))) for c in cols] for e in support]
    return sdpgen.rank_aug(rows, [conv(sp.Rational(res.get(e, 0))) for e in support], len(cols))[1]


@CHECK.sub("problem", _case, quick=1500, thorough=40000, shards=8, case_timeout=40,
           rule="SOSProblem on planted representations: the Gram family contains the planted matrices, every member of the family reproduces the "
                "polynomial, every subspace derived from zeros found by the solver annihilates the planted matrices, and construction accepts the problem")
def problem(case, ctx):
    from triples.core.sdpsos import SOSProblem
    R = Rep(case, ctx)
    if not R.f or not R.gens:
        ctx.skip("empty")
    gp, hp = [R.poly(q) for q in R.gens], [R.poly(q) for q in R.h]
    poly = R.poly(R.f)
    pb = SOSProblem(poly, symmetry=_group(R.els))
    ctx.label("n%d" % R.n, "deg%d" % R.d, "group:" + case["group"], "generators:%d" % len(gp), "zeros:%d" % len(case["zeros"]))
    planted = dict(zip(gp, R.S))
    manifold = getattr(pb, "manifold", None)
    if manifold is not None and hasattr(manifold, "nullspace"):
        for q, key in zip(R.gens, gp):
            N = manifold.nullspace(key, gp, hp)
            cols = [list(map(_frac, N[:, j])) for j in range(N.shape[1])] if N.shape[0] * N.shape[1] else []
            cols = [c for c in cols if any(c)]
            if cols:
                ctx.nontrivial()
                ctx.label("restricted")
                if q not in ([ineq.pconst(1, R.n)]):
                    ctx.label("restricted constraint")
            for c in cols:
                ctx.require(len(c) == len(planted[key]), lambda: "vectors of length %d for a matrix of size %d" % (len(c), len(planted[key])), "nullspace:length")
                ctx.require(_annihilates(planted[key], c), lambda: "f = %s with constraints %s, %s: the zeros are said to force S v = 0 for v = %s and the constraint %s, but S = %s"
                            % (poly.as_expr(), [x.as_expr() for x in gp], [x.as_expr() for x in hp], c, key.as_expr(), planted[key]), "nullspace:excludes")
    try:
        pb.construct(gp, hp)
    except ValueError as e:
        ctx.fail("f = %s with constraints %s, %s has a representation, but: %s" % (poly.as_expr(), [x.as_expr() for x in gp], [x.as_expr() for x in hp], e), "construct:rejected")
    root = pb._sdp
    fam = sdpgen.Family(root)
    ctx.require(set(fam.keys) == set(gp), lambda: "matrices for %s" % (fam.keys,), "family:keys")
    for k in gp:
        ctx.require(len(fam.x0[k]) == len(planted[k]), lambda: "matrix of %s has size %d" % (k, len(fam.x0[k])), "family:size")
    ctx.require(fam.contains(planted), lambda: "f = %s: the Gram family of %s misses %s" % (poly.as_expr(), gp, planted), "family:misses")
    if fam.dof:
        ctx.nontrivial()
    for t in range(2):
        y = [gen.R(case["y"][(i + 3 * t) % len(case["y"])]) * (1 if t == 0 else i + 1) for i in range(root.dof)]
        S = root.S_from_y(sp.Matrix(len(y), 1, y))
        tot = {}
        for q, key, monos in zip(R.gens, gp, R.monos):
            M = S[key]
            ctx.require((M - M.T).is_zero_matrix is not False, lambda: "asymmetric member %s" % M.tolist(), "family:symmetric")
            tot = ineq.padd(tot, ineq.pmul(_gram_value(M, monos, R.n), q))
        tot = ineq.pcyc(tot, R.els)
        res = ineq.padd(R.f, ineq.pscale(tot, -1))
        ctx.require(not res or (R.h and _residual_in_ideal(R, res, ctx)), lambda: "f = %s, generators %s: a member of the Gram family represents %s" %
                    (poly.as_expr(), [x.as_expr() for x in gp], ineq.to_expr(tot, R.syms)), "family:wrong")
    leaf = pb.sdp
    if leaf is not None:
        # the solver's own point, when it finds one, must obey the same equations through all reductions
        if case["asked"] == 0 and leaf.dof <= 25:
            try:
                ok = pb.solve()
            except (ValueError, RuntimeError):
                ok = False
            ctx.label("solved" if ok else "unsolved")


def _frac(x):
    x = sp.sympify(x)
    if not x.is_Rational:
        raise AssertionError("irrational entry %s" % x)
    return F(int(x.p), int(x.q))


def _annihilates(S, v):
    return all(sum((S[i][j] * v[j] for j in range(len(v))), F(0)) == 0 for i in range(len(v)))


@st.composite
def _root_case(draw):
    c = draw(_case(ns=(2, 3, 4)))
    if not c["zeros"]:
        c["zeros"] = [draw(_zero(c["n"]))]
    c["style"] = draw(st.sampled_from(["ideal", "ideal", "mixed"]))
    return c


@CHECK.sub("given", _root_case, quick=1200, thorough=30000, shards=8, case_timeout=40,
           rule="as before, but the planted zeros (rational, quadratic or cubic irrational) are handed to the subspace computation directly, "
                "so that it does not depend on the numerical search for zeros")
def given(case, ctx):
    make = ctx.helper("triples.core.sdpsos.manifold", "RootSubspace")
    MM = ctx.helper("triples.utils.monomials", "MonomialManager")
    if not hasattr(make, "_nullspace_from_roots"):
        ctx.skip("helper gone")
    from triples.utils import Root, RootAlgebraic
    R = Rep(case, ctx)
    if not R.f or not R.gens:
        ctx.skip("empty")
    gp, hp = [R.poly(q) for q in R.gens], [R.poly(q) for q in R.h]
    zeros = []
    for Z in case["zeros"]:
        pt, m = _point(Z, R.n)
        if any(any(_eval(R.f, pt, m)) for _ in [0]) or not any(any(x) for x in pt):
            continue
        pt = _sympoint(Z, R.n)
        zeros.append(Root(pt) if all(x.is_Rational for x in pt) else RootAlgebraic(pt))
    if not zeros:
        ctx.skip("no zero left")
    man = make(R.poly(R.f), MM(R.n, _group(R.els), is_homogeneous=True))
    man.roots = zeros
    ctx.label("n%d" % R.n, "group:" + case["group"], *["field:" + Z[0] for Z in case["zeros"]])
    for q, key, S in zip(R.gens, gp, R.S):
        N = man.nullspace(key, gp, hp)
        cols = [list(map(_frac, N[:, j])) for j in range(N.shape[1])] if N.shape[0] * N.shape[1] else []
        if any(any(c) for c in cols):
            ctx.nontrivial()
            if any(Z[0] != "q" for Z in case["zeros"]):
                ctx.label("irrational restriction")
        for c in cols:
            ctx.require(len(c) == len(S) and _annihilates(S, c), lambda: "f = %s with constraints %s, %s and zeros %s: said to force S v = 0 for v = %s and the constraint %s, but S = %s"
                        % (R.poly(R.f).as_expr(), [x.as_expr() for x in gp], [x.as_expr() for x in hp], zeros, c, key.as_expr(), S), "nullspace:excludes")
