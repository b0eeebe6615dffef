"""C16: matrix certificates of semidefiniteness are exact."""
import numpy as np
from hypothesis import strategies as st
import sympy as sp
from triples.sdp import utils as U_
from triples.sdp import rationalize as rat_

from .. import lin
from ..core import Check
from ..lin import F

CHECK = Check("C16", rule="symmetric rational matrices built as L^T D L with chosen signs and zeros in D (so definite, singular, "
              "indefinite and zero-diagonal ones all occur), perturbed copies, affine families with numerical points near "
              "feasible ones. Oracle: exact symmetric elimination over fractions. Non-trivial: size >= 2 with a nonzero "
              "off-diagonal entry (or, for packing, a non-empty matrix).")


@st.composite
def _sym(draw, nmax=6, kinds=("small", "rat", "big", "bigrat")):
    n = draw(st.integers(1, nmax))
    kind = draw(st.sampled_from(list(kinds)))
    style = draw(st.sampled_from(["gram", "gram", "gram", "random", "gramneg", "bump", "bump", "zerodiag"]))
    if style == "random":
        M = lin.mat(draw(lin.matrix(n, n, kind)))
        M = [[M[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
    else:
        L = lin.mat(draw(lin.matrix(n, n, draw(st.sampled_from(["small", kind])))))
        D = draw(st.lists(st.sampled_from([0, 0, 1, 2, 3, [1, 3], [7, 2]] + ([-1, [-1, 2]] if style == "gramneg" else [])),
                          min_size=n, max_size=n))
        D = [lin.frac(d) for d in D]
        M = lin.mul(lin.transpose(L, n), [[d * x for x in row] for d, row in zip(D, L)], n)
        if style == "bump":
            i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
            e = draw(st.sampled_from([1, -1, [1, 10**6], [-1, 10**6], [-1, 10**20], [1, 10**20]]))
            M[i][j] += lin.frac(e)
            if i != j:
                M[j][i] += lin.frac(e)
        if style == "zerodiag":
            i = draw(st.integers(0, n - 1))
            M[i][i] = F(0)
    return {"n": n, "M": [[_pq(x) for x in r] for r in M], "style": style, "rep": draw(st.sampled_from(["auto", "qq", "dense", "sparse"]))}


def _pq(x):
    return int(x) if x.denominator == 1 else [x.numerator, x.denominator]


def offdiag(M):
    return any(M[i][j] for i in range(len(M)) for j in range(len(M)) if i != j)


def check_decomp(ctx, M, dec, what):
    U, S = dec
    n = len(M)
    ctx.require(tuple(U.shape) == (n, n) and len(S) == n, "%s: shapes %s, %s" % (what, U.shape, len(S)), what + ":shape")
    u = lin.from_sympy(U)
    s = [F(int(x.p), int(x.q)) for x in S]
    ctx.require(all(x >= 0 for x in s), lambda: "%s: negative weight in %s" % (what, s), what + ":sign")
    ctx.require(all(u[i][j] == 0 for i in range(n) for j in range(i)), lambda: "%s: U is not upper triangular" % what, what + ":shape")
    R = lin.mul(lin.transpose(u, n), [[w * x for x in row] for w, row in zip(s, u)], n)
    ctx.require(R == M, lambda: "%s: U^T S U = %s differs from %s" % (what, R, M), what + ":value")


@CHECK.sub("congruence", _sym, quick=2400, thorough=60000, shards=2, case_timeout=20, hang=True, rule="exact decomposition of a rational matrix")
def congruence(case, ctx):
    M = lin.mat(case["M"])
    n = case["n"]
    A = lin.to_sympy(case["M"], n, case["rep"])
    ctx.nontrivial(n > 1 and offdiag(M))
    psd = lin.is_psd(M)
    ctx.label(case["style"], "psd" if psd else "not")
    for what, f in (("congruence", U_.congruence), ("congruence_with_perturbation", U_.congruence_with_perturbation)):
        r = f(A)
        ctx.require((r is not None) == psd, lambda: "%s %s a matrix that is%s positive semidefinite: %s" % (
            what, "accepts" if r is not None else "rejects", "" if psd else " not", M), what + (":accepts" if r else ":rejects"))
        if r is not None:
            check_decomp(ctx, M, r, what)
    ctx.require(lin.from_sympy(A) == M, "the matrix was modified", "congruence:mutates")


@CHECK.sub("surds", lambda: st.tuples(_sym(4, ("small",)), st.sampled_from([2, 3, 5]), st.lists(st.integers(-2, 2), min_size=4, max_size=4),
                                      st.booleans()).map(list),
           quick=320, thorough=6000, shards=2, case_timeout=30, rule="matrices over a real quadratic field, scaled by a surd diagonal")
def surds(case, ctx):
    m, k, ds, sign = case
    n = m["n"]
    M = lin.mat(m["M"])
    psd = lin.is_psd(M)
    # D M D with D = diag(d_i + sqrt(k)) is semidefinite exactly when M is (D is invertible as k is not a square)
    D = sp.diag(*[d + sp.sqrt(k) for d in ds[:n]])
    A = (D * lin.to_sympy(m["M"], n) * D).applyfunc(lambda x: sp.expand(x))
    ctx.nontrivial(n > 1 and offdiag(M))
    ctx.label("psd" if psd else "not")

    def zero(x):
        return sp.expand(sp.radsimp(sp.expand(x))) == 0

    def sgn(x):
        x = sp.radsimp(sp.expand(sp.radsimp(x)))
        return 0 if zero(x) else (1 if x.n(40) > 0 else -1)
    r = U_.congruence(A, signfunc=sgn)
    ctx.require((r is not None) == psd, lambda: "%s %s" % ("accepted" if r else "rejected", A), "surd:decision")
    if r is not None:
        U, S = r
        ctx.require(all(sgn(x) >= 0 for x in S), "negative weight", "surd:sign")
        R = U.T * sp.diag(*S) * U
        for i in range(n):
            for j in range(n):
                ctx.require(zero(R[i, j] - A[i, j]), lambda: "entry %d,%d of U^T S U is off by %s" % (i, j, (R[i, j] - A[i, j]).n()), "surd:value")


@CHECK.sub("float", lambda: _sym(5, ("small",)), quick=600, thorough=6000, case_timeout=20, hang=True,
           rule="floating point matrices with a clear spectral gap, and the perturbing variant")
def floating(case, ctx):
    M = np.array([[float(x) for x in r] for r in lin.mat(case["M"])])
    n = case["n"]
    w = np.linalg.eigvalsh(M)
    scale = max(1.0, np.abs(w).max())
    ctx.nontrivial(n > 1)
    if w.min() > 1e-3 * scale or w.min() < -1e-3 * scale:
        r = U_.congruence(M)
        ctx.require((r is not None) == (w.min() > 0), lambda: "decision %s for eigenvalues %s" % (r is not None, w), "float:decision")
        if r is not None:
            U, S = r
            ctx.require((S >= 0).all() and np.allclose(U.T @ np.diag(S) @ U, M, atol=1e-8 * scale), "float decomposition is wrong", "float:value")
            ctx.label("definite")
    A = lin.to_sympy(case["M"], n)
    r = U_.congruence_with_perturbation(A, perturb=True)
    if r is None:
        ctx.require(w.min() < -1e-9 or not lin.is_psd(lin.mat(case["M"])), "a semidefinite matrix was rejected with perturbation", "perturb:reject")
        ctx.require(w.min() > 1e-6 * -1 or w.min() >= -1e-12 or True, "", "perturb")
        return
    U, S = r
    R = np.array((U.T * sp.diag(*S) * U).tolist(), dtype=float)
    ctx.require(all(x >= 0 for x in S), "negative weight after perturbation", "perturb:sign")
    D = R - M
    delta = np.trace(D) / n
    ctx.require(np.allclose(D, delta * np.eye(n), atol=1e-7 * scale), "perturbed matrix is not a multiple of the identity away", "perturb:value")
    ctx.require(-1e-7 * scale <= delta <= max(0, -w.min()) + 1e-4 * scale, lambda: "perturbed by %s, smallest eigenvalue %s" % (delta, w.min()), "perturb:size")


@st.composite
def _pack(draw):
    n = draw(st.integers(1, 6))
    M = draw(lin.matrix(n, n, "rat"))
    M = [[M[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
    m = draw(st.integers(0, 3))
    return {"n": n, "M": M, "x0": draw(lin.matrix(n * n, 1, "rat")), "space": draw(lin.matrix(n * n, m, "rat")), "m": m,
            "y": draw(lin.matrix(m, 1, "rat")), "keep": draw(st.lists(st.integers(0, n - 1), unique=True)),
            "lens": draw(st.lists(st.integers(0, 4), max_size=4)), "rep": draw(st.sampled_from(["auto", "qq", "dense", "sparse"]))}


def _packable(n):
    return n


@CHECK.sub("packing", _pack, quick=800, thorough=8000, case_timeout=20, hang=True, rule="matrix <-> vector, affine assembly")
def packing(case, ctx):
    n, M = case["n"], lin.mat(case["M"])
    A = lin.to_sympy(case["M"], n, case["rep"])
    ctx.nontrivial(n > 1)
    V = U_.Mat2Vec
    for mode in (V.DIRECT, V.UPPER):
        v = V.mat2vec(A, mode)
        want_len = n * n if mode == V.DIRECT else n * (n + 1) // 2
        ctx.require(V.length_of_vec(n, mode) == want_len, "length_of_vec(%d, %d) = %s" % (n, mode, V.length_of_vec(n, mode)), "pack:length")
        if not hasattr(v, "shape"):
            v = list(v)
            ctx.fail("mat2vec(mode=%d) returned a %s instead of a vector" % (mode, type(v)), "pack:type")
        ctx.require(v.shape[0] * v.shape[1] == want_len, "packed vector has shape %s" % (v.shape,), "pack:length")
        back = V.vec2mat(v, mode)
        ctx.require(lin.from_sympy(back) == M, lambda: "mode %d: unpacking gives %s for %s" % (mode, back, M), "pack:roundtrip%d" % mode)
        back = V.vec2mat(v.T, mode) if mode == V.DIRECT else back
        ctx.require(lin.from_sympy(back) == M, "unpacking a row vector", "pack:row")
        Anp = np.array([[float(x) for x in r] for r in M])
        vn = V.mat2vec(Anp, mode)
        if mode == V.UPPER:
            backn = V.vec2mat(np.array(vn), mode)
            ctx.require(np.array_equal(backn, Anp), "numpy round trip mode %d" % mode, "pack:numpy")
            st3 = V.symmetric_matrix_from_upper_vec(np.stack([np.array(vn), 2 * np.array(vn)], axis=1))
            ctx.require(np.array_equal(st3[:, :, 0], Anp) and np.array_equal(st3[:, :, 1], 2 * Anp), "numpy tensor round trip", "pack:tensor")
        else:
            ctx.require(np.array_equal(vn, Anp.flatten()), "numpy packing", "pack:numpy")
    for k in range(0, 60):
        for mode in (V.DIRECT, V.UPPER):
            ctx.require(V.length_of_mat(V.length_of_vec(k, mode), mode) == k, "length_of_mat is not inverse at %d" % k, "pack:length")
    keep = set(case["keep"])
    up = list(V.upper_vec_of_symmetric_matrix(A, check=lambda i: i in keep))
    want = [A[i, j] for i in sorted(keep) for j in sorted(keep) if j >= i]
    ctx.require(up == want, "filtered upper part %s, expected %s" % (up, want), "pack:filter")
    up = list(V.upper_vec_of_symmetric_matrix(n, return_inds=True))
    ctx.require(up == [(i, j) for i in range(n) for j in range(i, n)], "index pairs %s" % up, "pack:index")
    up = list(V.upper_vec_of_symmetric_matrix(A, mul=2))
    ctx.require(up == [A[i, j] * (1 if i == j else 2) for i in range(n) for j in range(i, n)], "scaled upper part %s" % up, "pack:mul")
    spl = V.split_vector(list(case["lens"]))
    pos, want = 0, []
    for l in case["lens"]:
        if l > 0:
            want.append(slice(pos, pos + l * l))
            pos += l * l
    ctx.require(spl == want, "splits %s, expected %s" % (spl, want), "pack:split")
    # affine assembly
    x0, sp_, y = lin.mat(case["x0"]), lin.mat(case["space"]), lin.mat(case["y"])
    vec = [a[0] + sum((s * t[0] for s, t in zip(row, y)), F(0)) for a, row in zip(x0, sp_)]
    Y = lin.to_sympy(case["y"], 1)
    S = U_.S_from_y(Y, {"k": (lin.to_sympy(case["x0"], 1, case["rep"]), lin.to_sympy(case["space"], case["m"], case["rep"]))})
    ctx.require(set(S) == {"k"} and lin.from_sympy(S["k"]) == [vec[i * n:(i + 1) * n] for i in range(n)], lambda: "S_from_y gives %s" % S, "S_from_y")


@st.composite
def _affine(draw):
    m = draw(st.integers(0, 4))
    r, c = draw(st.integers(1, 3)), draw(st.integers(1, 3))

    def row():
        return draw(st.tuples(lin.entry("rat"), st.lists(lin.entry("rat"), min_size=m, max_size=m)).map(list))
    return {"m": m, "r": r, "c": c, "M": [row() for _ in range(r * c)], "E": [row() + [draw(st.sampled_from(
        ["expr", "call", ">=", "<=", ">", "<", "==", "mat", "mat3", "matcall", "number"])), row(), draw(st.booleans())]
        for _ in range(draw(st.integers(1, 4)))], "w": draw(st.booleans())}


def _afx(row, ys, factored=False):
    c, cs = lin.frac(row[0]), [lin.frac(x) for x in row[1]]
    e = sp.Rational(c.numerator, c.denominator)
    for k, y in zip(cs, ys):
        e += sp.Rational(k.numerator, k.denominator) * y
    return e


@CHECK.sub("affine", _affine, quick=800, thorough=8000, case_timeout=20, hang=True, rule="reading affine matrices and constraints")
def affine(case, ctx):
    m = case["m"]
    ys = list(sp.symbols("y:%d" % m)) if m else []
    if len(ys) >= 2 and case["w"]:
        ys = ys[::-1]
    r, c = case["r"], case["c"]
    M = sp.Matrix(r, c, [_afx(row, ys) for row in case["M"]])
    ctx.nontrivial(m > 0)
    x, A, v = U_.decompose_matrix(M, ys)
    ctx.require(list(v) == ys, "variables %s, expected %s" % (v, ys), "affine:vars")
    ctx.require(lin.from_sympy(x) == [[lin.frac(row[0])] for row in case["M"]], lambda: "constant part %s of %s" % (x, M), "affine:const")
    ctx.require(lin.from_sympy(A) == [[lin.frac(t) for t in row[1]] for row in case["M"]], lambda: "linear part %s of %s" % (A, M), "affine:linear")
    x, A, v = U_.decompose_matrix(M)
    if m:
        back = (x + A * v).reshape(r, c) if v.shape[0] else x.reshape(r, c)
        ctx.require((back - M).applyfunc(sp.expand) == sp.zeros(r, c), "decomposition with default variables does not reproduce the matrix", "affine:default")
    exprs, want = [], []
    loc = {"y": sp.Matrix(ys) if m else sp.Matrix(0, 1, [])}
    for a0, a1, kind, b, flag in case["E"]:
        a, b_ = [lin.frac(a0)] + [lin.frac(t) for t in a1], [lin.frac(b[0])] + [lin.frac(t) for t in b[1]]
        ea, eb = _afx([a0, a1], ys), _afx(b, ys)
        d = [s - t for s, t in zip(a, b_)]
        if kind == "number":
            exprs.append(ea if m == 0 else sp.Integer(3))
            want.append(([F(0)] * m, -a[0] if m == 0 else F(-3), None))
        elif kind == "expr":
            exprs.append(ea)
            want.append((a[1:], -a[0], None))
        elif kind == "call":
            exprs.append(lambda loc, ea=ea: ea)
            want.append((a[1:], -a[0], None))
        elif kind in (">=", "<=", ">", "<", "=="):
            rel = {">=": sp.Ge, "<=": sp.Le, ">": sp.Gt, "<": sp.Lt, "==": sp.Eq}[kind](ea, eb, evaluate=False)
            if kind in ("<=", "<"):
                d = [-t for t in d]
            exprs.append((lambda loc, rel=rel: rel) if flag else rel)
            want.append((d[1:], -d[0], "__eq__" if kind == "==" else "__ge__"))
        else:
            row = sp.Matrix(1, m, [sp.Rational(t.numerator, t.denominator) for t in a[1:]])
            rhs = sp.Rational(a[0].numerator, a[0].denominator)
            t = (row, rhs) if kind != "mat3" else (row, rhs, "__ge__")
            exprs.append((lambda loc, t=t: t) if kind == "matcall" else t)
            want.append((a[1:], a[0], "__ge__" if kind == "mat3" else None))
    got = U_.exprs_to_arrays(loc, ys, exprs)
    ctx.require(len(got) == len(want), "number of arrays", "exprs:count")
    for i, (g, w) in enumerate(zip(got, want)):
        vec, rhs, op = g[0], g[1], (g[2] if len(g) == 3 else None)
        gv = lin.from_sympy(vec)[0] if m else []
        rhs = sp.sympify(rhs)
        ctx.require(gv == list(w[0]) and F(int(rhs.p), int(rhs.q)) == w[1] and op == w[2],
                    lambda: "constraint %s read as %s, expected %s" % (exprs[i], g, w), "exprs:value:" + case["E"][i][2])


@st.composite
def _round(draw):
    n = draw(st.integers(1, 3))
    m = draw(st.integers(0, 3))
    space = []
    for _ in range(m):
        B = draw(lin.matrix(n, n, "small"))
        space.append([B[min(i, j)][max(i, j)] for i in range(n) for j in range(n)])
    y0 = draw(st.lists(st.tuples(st.integers(-12, 12), st.sampled_from([1, 1, 2, 3, 7, 36])).map(list), min_size=m, max_size=m))
    L = draw(lin.matrix(n, n, "small"))
    P = lin.mul(lin.transpose(lin.mat(L), n), lin.mat(L), n)
    vec = [P[i][j] for i in range(n) for j in range(n)]
    x0 = [v - sum((lin.frac(s[k]) * lin.frac(t) for s, t in zip(space, y0)), F(0)) for k, v in enumerate(vec)]
    return {"n": n, "m": m, "space": space, "y0": y0, "x0": [_pq(v) for v in x0],
            "noise": draw(st.sampled_from([0, 0, 1e-9, 1e-6, 1e-4, 1e-2])), "noises": draw(st.lists(st.integers(-5, 5), min_size=m, max_size=m)),
            "bad": draw(st.booleans()), "reg": draw(st.sampled_from([0, 0, 0, [1, 100], [-1, 100]])), "pretty": draw(st.booleans()),
            "exact": draw(st.booleans()), "mask": draw(st.booleans())}


@CHECK.sub("rounding", _round, quick=800, thorough=16000, shards=2, case_timeout=20, hang=True,
           rule="rational rounding of a numerical point of an affine family; what is accepted must be exactly feasible")
def rounding(case, ctx):
    n, m = case["n"], case["m"]
    space = [lin.mat([s])[0] for s in case["space"]]
    x0 = lin.mat([case["x0"]])[0]
    if case["bad"]:
        x0[0] -= 1
    y0 = [lin.frac(t) for t in case["y0"]]
    X0 = lin.to_sympy([[v] for v in x0], 1)
    SP = lin.to_sympy([[s[k] for s in space] for k in range(n * n)], m)

    def value(y):
        vec = [a + sum((s[k] * t for s, t in zip(space, y)), F(0)) for k, a in enumerate(x0)]
        return [vec[i * n:(i + 1) * n] for i in range(n)]

    def mat_func(y):
        return U_.S_from_y(y, {"S": (X0, SP)})
    reg = sp.Rational(*case["reg"]) if case["reg"] else 0
    regf = lin.frac(case["reg"]) if case["reg"] else F(0)
    if case["exact"]:
        y = sp.Matrix(m, 1, [sp.Rational(t.numerator, t.denominator) for t in y0])
    else:
        y = np.array([float(t) + case["noise"] * k for t, k in zip(y0, case["noises"])])
    rats = [rat_.RationalizeWithMask(), rat_.RationalizeSimultaneously([1, 1260, 1260**3])]
    if case["mask"]:
        rats = rats[::-1]
    res = rat_.rationalize_and_decompose(y, mat_func, rationalizers=rats, reg=reg, check_pretty=case["pretty"])

    def shifted(M):
        return [[x + (regf if i == j else 0) for j, x in enumerate(r)] for i, r in enumerate(M)]
    feas = lin.is_psd(shifted(value(y0)))
    ctx.nontrivial(m > 0)
    ctx.label("accepted" if res is not None else "rejected", "feasible" if feas else "infeasible", "exact" if case["exact"] else "float")
    if res is None:
        if case["exact"] and feas and not case["pretty"]:
            ctx.fail("an exactly feasible rational point was rejected", "round:rejected")
        if case["noise"] == 0 and feas and not case["exact"] and not case["pretty"] and all(1260 % t.denominator == 0 for t in y0):
            ctx.fail("a point equal to a feasible rational with small denominators was rejected", "round:rejected_float")
        return
    yr, dec = res
    yl = [r[0] for r in lin.from_sympy(yr)]
    if case["exact"]:
        ctx.require(yl == y0, lambda: "an exact point was changed to %s" % yl, "round:exact")
    else:
        for a, b in zip(yl, y):
            ctx.require(abs(float(a) - b) <= 0.5 + 1e-6, lambda: "rounded %s to %s" % (b, a), "round:far")
    S, U, d = dec["S"]
    want = shifted(value(yl))
    ctx.require(lin.from_sympy(S) == want, lambda: "stored matrix %s is not the affine family at %s" % (S, yl), "round:matrix")
    ctx.require(lin.is_psd(want), lambda: "accepted a matrix that is not semidefinite: %s" % want, "round:accepted")
    check_decomp(ctx, want, (U, d), "rounding")


def _num():
    return st.one_of(st.floats(-1e6, 1e6, allow_nan=False), st.floats(-2, 2, allow_nan=False),
                     st.tuples(st.integers(-99, 99), st.integers(1, 60)).map(lambda t: t[0] / t[1]), st.just(0.0))


@CHECK.sub("rationalizers", lambda: st.fixed_dictionaries({"y": st.lists(_num(), min_size=1, max_size=5), "tol": st.sampled_from([1e-1, 1e-3, 1e-6, 1e-10]),
                                                           "lcm": st.sampled_from([1, 2, 12, 1260, 1260**2])}),
           quick=600, thorough=8000, case_timeout=20, hang=True, rule="individual rounding rules")
def rationalizers(case, ctx):
    y = case["y"]
    ctx.nontrivial(any(y))
    for v in y:
        for x in (v, sp.Float(v)):
            r = rat_.rationalize(x, rounding=case["tol"])
            ctx.require(r.is_Rational and abs(F(int(r.p), int(r.q)) - F(v)) <= F(case["tol"]) * F(1001, 1000),
                        lambda: "rationalize(%r, %g) = %s" % (v, case["tol"], r), "rationalize")
    arr = np.array(y)
    tol = max(1, np.abs(arr).max()) * 1e-7
    (z,) = rat_.RationalizeWithMask()(arr)
    ctx.require(z.shape == (len(y), 1), "masked rounding changes the shape", "mask:shape")
    for a, b in zip(y, z):
        ctx.require(b.is_Rational and ((abs(a) <= tol and b == 0) or abs(F(int(b.p), int(b.q)) - F(a)) <= F(max(abs(a) * 1e-4, 1e-15)) * F(1001, 1000)),
                    lambda: "masked rounding of %r gives %s" % (a, b), "mask:value")
    (z,) = list(rat_.RationalizeSimultaneously([case["lcm"]])(arr))
    for a, b in zip(y, z):
        ctx.require(b.is_Rational and case["lcm"] % b.q == 0 and abs(F(int(b.p), int(b.q)) - F(a)) <= F(1, 2 * case["lcm"]) + F(abs(a)) * F(1, 2**50),
                    lambda: "simultaneous rounding of %r over %d gives %s" % (a, case["lcm"], b), "simultaneous:value")
    (z,) = rat_.IdentityRationalizer()(arr)
    ctx.require([float(t) for t in z] == y, "identity rounding changed the point", "identity")
    pretty = rat_.verify_is_pretty
    qs = [sp.Rational(str(round(v, 2))) for v in y]
    l = 1
    for q in qs:
        l = sp.ilcm(l, q.q)
    want = l <= max(36, max(q.q for q in qs))**2
    ctx.require(pretty(qs) == want, "verify_is_pretty(%s) = %s" % (qs, pretty(qs)), "pretty")
    ctx.require(pretty(qs, threshold=lambda _: l) and not (l > 1 and pretty(qs, threshold=lambda _: l - 1)), "threshold is not honoured", "pretty")


@CHECK.sub("align", lambda: st.lists(st.one_of(st.none(), st.lists(st.integers(0, 3), max_size=3).map(lambda l: ["L"] + l), st.integers(0, 3)), min_size=1, max_size=4),
           quick=200, thorough=2000, rule="alignment of optional argument lists")
def align(case, ctx):
    f = ctx.helper("triples.sdp.utils", "align_iters")
    its = [x if not isinstance(x, list) else x[1:] for x in case]
    want = [[] if x is None else (x if isinstance(x, list) else [x]) for x in its]
    k = min(len(x) for x in want)
    ctx.nontrivial(k > 0)
    ctx.require(f(list(its), [int] * len(its)) == [x[:k] for x in want], lambda: "aligned %s to %s" % (its, f(list(its), [int] * len(its))), "align")
    if len(set(map(len, want))) > 1:
        ctx.require(ctx.raises(U_.IteratorAlignmentError, f, list(its), [int] * len(its), True), "incompatible lengths accepted", "align")
