"""C15: fast exact matrix arithmetic is exact."""
from hypothesis import strategies as st
import sympy as sp
import triples.sdp.arithmetic as ar

from .. import lin
from ..core import Check
from ..lin import F

CHECK = Check("C15", rule="matrices with entries in strata around 2^15, 2^31, 2^53, 2^62..2^64 and beyond, common contents and "
              "denominators, all sizes 0-6, dense/sparse/ZZ/QQ/algebraic representations; linear systems of every rank "
              "profile, consistent or not, with equal-entry groups. Oracle: arithmetic over Python fractions. Non-trivial: a "
              "product of two nonzero matrices, or a system with at least one equation and one unknown.")
REPS = ["auto", "qq", "dense", "sparse"]
KINDS = ["small", "rat", "big", "big", "bigrat"]


def same(ctx, M, want, what, shape=None):
    sh = shape or (len(want), len(want[0]) if want else 0)
    ctx.require(tuple(M.shape) == tuple(sh), lambda: "%s: shape %s, expected %s" % (what, M.shape, sh), what + ":shape")
    got = lin.from_sympy(M)
    ctx.require(got == want, lambda: "%s is wrong:\n%s\nexpected\n%s" % (what, got, want), what + ":value")


def nz(A):
    return any(x for r in A for x in r)


def _mm_case():
    def go(t):
        r, n, c, k1, k2 = t
        return st.fixed_dictionaries({
            "r": st.just(r), "n": st.just(n), "c": st.just(c), "A": lin.matrix(r, n, k1), "B": lin.matrix(n, c, k2),
            "ra": st.sampled_from(REPS), "rb": st.sampled_from(REPS), "flat": st.booleans(),
            "surd": st.sampled_from([0, 0, 0, 0, 1, 2])})
    k = st.sampled_from(KINDS)
    return st.tuples(st.integers(0, 5), st.integers(0, 5), st.integers(0, 5), k, k).flatmap(go)


@CHECK.sub("product", _mm_case, quick=3000, thorough=60000, shards=2, case_timeout=20, hang=True, rule="matmul of two matrices")
def product(case, ctx):
    r, n, c = case["r"], case["n"], case["c"]
    A, B = lin.mat(case["A"]), lin.mat(case["B"])
    MA, MB = lin.to_sympy(case["A"], n, case["ra"]), lin.to_sympy(case["B"], c, case["rb"])
    want = lin.mul(A, B, c)
    ctx.nontrivial(nz(A) and nz(B))
    if case["surd"]:
        # an algebraic factor makes the generic route run; it must agree with the scaled product
        k = sp.sqrt(2) if case["surd"] == 1 else sp.Symbol("x")
        ctx.label("generic")
        MA = MA * k
        P = ar.matmul(MA, MB, return_shape=(1, r * c)) if case["flat"] and r * c else ar.matmul(MA, MB)
        w = [[x for row in want for x in row]] if case["flat"] and r * c else want
        ctx.require(tuple(P.shape) == (len(w), (len(w[0]) if w else c)), "generic product has shape %s" % (P.shape,), "generic:shape")
        for i in range(len(w)):
            for j in range(len(w[0])):
                d = sp.expand(P[i, j] - k * sp.Rational(w[i][j].numerator, w[i][j].denominator))
                ctx.require(d == 0, lambda: "generic product entry %d,%d is off by %s" % (i, j, d), "generic:value")
        return
    big = max([abs(x) for row in A + B for x in row] or [0])
    ctx.label("big" if big > 2**31 else "small")
    if case["flat"] and r * c:
        P = ar.matmul(MA, MB, return_shape=(1, r * c))
        same(ctx, P, [[x for row in want for x in row]], "matmul")
    else:
        same(ctx, ar.matmul(MA, MB), want, "matmul", (r, c))
    same(ctx, MA, A, "left operand after matmul", (r, n))
    same(ctx, MB, B, "right operand after matmul", (n, c))


def _multi_case():
    def go(t):
        N, n, m, k1, k2 = t
        return st.fixed_dictionaries({
            "N": st.just(N), "n": st.just(n), "m": st.just(m), "A": lin.matrix(N, n * n, k1), "B": lin.matrix(n, m, k2),
            "ra": st.sampled_from(REPS), "rb": st.sampled_from(REPS), "surd": st.sampled_from([0, 0, 0, 1])})
    k = st.sampled_from(KINDS)
    return st.tuples(st.integers(0, 3), st.integers(0, 4), st.integers(0, 4), k, k).flatmap(go)


@CHECK.sub("batched", _multi_case, quick=2400, thorough=50000, shards=2, case_timeout=20, hang=True,
           rule="matmul_multiple, symmetric_bilinear(_multiple)")
def batched(case, ctx):
    N, n, m = case["N"], case["n"], case["m"]
    A, B = lin.mat(case["A"]), lin.mat(case["B"])
    MA, MB = lin.to_sympy(case["A"], n * n, case["ra"]), lin.to_sympy(case["B"], m, case["rb"])
    k = 1
    if case["surd"]:
        k = sp.sqrt(2)
        MA = MA * k
    ctx.nontrivial(nz(A) and nz(B) and N > 0)

    def rat(M):
        return sp.expand(M / k) if case["surd"] else M
    prods, bil = [], []
    for row in A:
        S = [row[i * n:(i + 1) * n] for i in range(n)]
        P = lin.mul(S, B, m)
        prods.append([x for r in P for x in r])
        Q = lin.mul(lin.transpose(B, m), P, m)
        bil.append([x for r in Q for x in r])
    same(ctx, rat(ar.matmul_multiple(MA, MB)), prods, "matmul_multiple", (N, n * m))
    same(ctx, rat(ar.symmetric_bilinear_multiple(MB, MA)), bil, "symmetric_bilinear_multiple", (N, m * m))
    if N:
        one = MA[0, :]
        same(ctx, rat(ar.symmetric_bilinear(MB, one, is_A_vec=True, return_shape=(1, m * m))), [bil[0]], "symmetric_bilinear")
        Q = [bil[0][i * m:(i + 1) * m] for i in range(m)]
        same(ctx, rat(ar.symmetric_bilinear(MB, one.reshape(n, n))), Q, "symmetric_bilinear")


def _edge_case():
    return st.fixed_dictionaries({
        "n": st.integers(1, 6), "m": st.integers(1, 3), "N": st.integers(1, 2), "bits": st.integers(1, 31),
        "over": st.integers(-40, 70), "mant": st.integers(64, 127), "jit": st.lists(st.integers(0, 3), min_size=1, max_size=7),
        "neg": st.booleans(), "ra": st.sampled_from(REPS), "rb": st.sampled_from(REPS)})


@CHECK.sub("edge", _edge_case, quick=2400, thorough=40000, shards=2, case_timeout=20, hang=True,
           rule="dense equal-sign matrices whose products accumulate to just below or above 2^63")
def edge(case, ctx):
    """over/10 = log2 of (largest sum of products / 2^63), so each overflow guard is met from both sides."""
    n, m, N, bits = case["n"], case["m"], case["N"], case["bits"]
    J = case["jit"]
    ctx.nontrivial()
    ctx.label("over" if case["over"] > 0 else "under")

    def dense(r, c, mag):
        return [[(mag - J[(i * c + j) % len(J)]) * (-1 if case["neg"] and r == n and c == m else 1) for j in range(c)] for i in range(r)]
    u = (case["mant"] << bits) >> 6
    U = dense(n, m, u)

    def go(total_terms, upow, f, ref, what):
        a = int(2**63 * 2**(case["over"] / 10)) // (total_terms * u**upow)
        if a < 4:
            return
        A = dense(N, n * n, a) if what != "matmul" else dense(N, n, a)
        MA, MU = lin.to_sympy(A, len(A[0]), case["ra"]), lin.to_sympy(U, m, case["rb"])
        same(ctx, f(MA, MU), ref([[F(x) for x in r] for r in A]), "edge " + what)
    Uf = [[F(x) for x in r] for r in U]

    def multi(A):
        out = []
        for row in A:
            out.append([x for r in lin.mul([row[i * n:(i + 1) * n] for i in range(n)], Uf, m) for x in r])
        return out

    def bil(A):
        out = []
        for row in A:
            P = lin.mul([row[i * n:(i + 1) * n] for i in range(n)], Uf, m)
            out.append([x for r in lin.mul(lin.transpose(Uf, m), P, m) for x in r])
        return out
    go(n, 1, ar.matmul, lambda A: lin.mul(A, Uf, m), "matmul")
    go(n, 1, ar.matmul_multiple, multi, "matmul_multiple")
    go(n * n, 2, lambda A, U: ar.symmetric_bilinear_multiple(U, A), bil, "symmetric_bilinear_multiple")


def _low_rank(draw, r, c, kind):
    style = draw(st.sampled_from(["random", "lowrank", "sparse", "separated", "dup"]))
    if style == "lowrank" and r and c:
        k = draw(st.integers(0, min(r, c)))
        U, V = draw(lin.matrix(r, k, "small")), draw(lin.matrix(k, c, kind))
        return [[_pq(x) for x in row] for row in lin.mul(lin.mat(U), lin.mat(V), c)]
    if style == "sparse":
        A = draw(lin.matrix(r, c, kind))
        mask = draw(st.lists(st.lists(st.integers(0, 2), min_size=c, max_size=c), min_size=r, max_size=r))
        return [[x if m == 0 else 0 for x, m in zip(a, b)] for a, b in zip(A, mask)]
    if style == "separated" and r:
        A = [[0] * c for _ in range(r)]
        for j in range(c):
            i = draw(st.integers(0, r))
            if i < r:
                A[i][j] = draw(lin.entry(kind))
        return A
    A = draw(lin.matrix(r, c, kind))
    if style == "dup" and r > 1:
        A[-1] = [x for x in A[0]]
    return A


def _pq(x):
    return int(x) if x.denominator == 1 else [x.numerator, x.denominator]


@st.composite
def _system(draw, groups=False, bcols=(1, 1, 2)):
    r, c = draw(st.integers(1, 5)), draw(st.integers(1, 6))
    kind = draw(st.sampled_from(["small", "small", "rat", "big"]))
    A = _low_rank(draw, r, c, kind)
    k = 1 if groups else draw(st.sampled_from(list(bcols)))
    G = []
    if groups:
        p = draw(st.permutations(list(range(c))))
        i = 0
        while i < c:
            s = draw(st.integers(1, 3))
            g = list(p[i:i + s])
            if draw(st.booleans()) and len(g) > 1:
                G.append(g)
            i += s
        # the lists may repeat each other, in another order, or overlap
        for g in draw(st.lists(st.sampled_from(G), max_size=2)) if G else []:
            G.append(list(draw(st.permutations(g))))
        if draw(st.integers(0, 3)) == 0 and c > 1:
            G.insert(draw(st.integers(0, len(G))), draw(st.lists(st.integers(0, c - 1), min_size=2, max_size=3, unique=True)))
        if draw(st.booleans()):
            # one nonzero entry per column, equal entries mostly in the same row
            rows = [draw(st.integers(0, r - 1)) for _ in range(c)]
            if draw(st.integers(0, 3)):
                for g in G:
                    for i in g:
                        rows[i] = rows[g[0]]
            v = [draw(st.integers(-3, 3)) for _ in range(c)]
            A = [[v[j] if rows[j] == i else 0 for j in range(c)] for i in range(r)]
    style = draw(st.sampled_from(["consistent", "consistent", "consistent", "zero", "random"]))
    if style == "consistent":
        X = draw(lin.matrix(c, k, "rat"))
        for _ in G:
            for g in G:
                for i in g:
                    X[i] = X[min(g)]
        B = [[_pq(x) for x in row] for row in lin.mul(lin.mat(A), lin.mat(X), k)]
    elif style == "zero":
        B = [[0] * k for _ in range(r)]
    else:
        B = draw(lin.matrix(r, k, "rat"))
    return {"A": A, "B": B, "r": r, "c": c, "k": k, "G": G, "ra": draw(st.sampled_from(REPS)), "rb": draw(st.sampled_from(REPS))}


def describes_all(ctx, A, B, k, x0, space, c, what):
    """x0 + span(space) is exactly the solution set of A x = B."""
    X, S = lin.from_sympy(x0), lin.from_sympy(space)
    ctx.require(tuple(x0.shape) == (c, k), lambda: "%s: particular solution has shape %s" % (what, x0.shape), what + ":shape")
    ctx.require(space.shape[0] == c, lambda: "%s: basis has shape %s" % (what, space.shape), what + ":shape")
    m = space.shape[1]
    ctx.require(lin.mul(A, X, k) == B, lambda: "%s: particular solution %s does not solve the system" % (what, X), what + ":particular")
    Z = lin.mul(A, S, m)
    ctx.require(not nz(Z), lambda: "%s: basis %s is not in the kernel" % (what, S), what + ":kernel")
    dim = c - lin.rank(A)
    got = lin.rank(S) if m else 0
    ctx.require(got == dim, lambda: "%s: basis %s spans dimension %d, the solution set has %d" % (what, S, got, dim), what + ":complete")


def consistent(A, B):
    return lin.rank(A) == lin.rank([a + b for a, b in zip(A, B)])


@CHECK.sub("system", _system, quick=1600, thorough=40000, shards=2, case_timeout=20, hang=True,
           rule="solve_undetermined_linear, row reduction and null space")
def system(case, ctx):
    c, k = case["c"], case["k"]
    A, B = lin.mat(case["A"]), lin.mat(case["B"])
    MA, MB = lin.to_sympy(case["A"], c, case["ra"]), lin.to_sympy(case["B"], k, case["rb"])
    ctx.nontrivial(nz(A))
    ok = consistent(A, B)
    ctx.label("consistent" if ok else "inconsistent", "rank%d" % lin.rank(A))
    try:
        x0, space = ar.solve_undetermined_linear(MA, MB)
    except ValueError as e:
        ctx.require(not ok, lambda: "consistent system rejected: %s" % e, "solve:rejected")
    else:
        ctx.require(ok, lambda: "inconsistent system accepted, x0 = %s" % (x0,), "solve:accepted")
        describes_all(ctx, A, B, k, x0, space, c, "solve_undetermined_linear")
    N = ar.solve_nullspace(MA)
    r = case["r"]
    At = lin.transpose(A, c)
    S = lin.from_sympy(N)
    ctx.require(N.shape[0] == r, lambda: "null space has shape %s" % (N.shape,), "nullspace:shape")
    ctx.require(not nz(lin.mul(At, S, N.shape[1])), lambda: "null space %s is not annihilated" % S, "nullspace:kernel")
    ctx.require(N.shape[1] == r - lin.rank(A) and (N.shape[1] == 0 or lin.rank(S) == N.shape[1]),
                lambda: "null space has %d columns, expected %d" % (N.shape[1], r - lin.rank(A)), "nullspace:dimension")
    rref = ctx.helper("triples.sdp.arithmetic", "_rref")
    want, piv = lin.rref(A)
    for nl in (True, False):
        R, p = rref(MA, normalize_last=nl)
        ctx.require(list(p) == piv, lambda: "pivots %s, expected %s" % (p, piv), "rref:pivots")
        same(ctx, R, want, "row reduction")
    same(ctx, MA, A, "matrix after solving")
    same(ctx, MB, B, "right-hand side after solving")


@CHECK.sub("equal_groups", lambda: _system(True), quick=1600, thorough=40000, shards=2, case_timeout=20, hang=True,
           rule="solve_csr_linear with lists (disjoint, repeated or overlapping) of entries forced equal, half of the systems with at most one "
                "nonzero entry per column")
def equal_groups(case, ctx):
    c = case["c"]
    A, B, G = lin.mat(case["A"]), lin.mat(case["B"]), case["G"]
    MA, MB = lin.to_sympy(case["A"], c, case["ra"]), lin.to_sympy(case["B"], 1, case["rb"])
    ctx.nontrivial(nz(A))
    E = []
    for g in G:
        for i in g[1:]:
            row = [F(0)] * c
            row[g[0]] += 1
            row[i] -= 1
            E.append(row)
    A2, B2 = A + E, B + [[F(0)]] * len(E)
    ok = consistent(A2, B2)
    sep = all(sum(1 for row in A if row[j]) <= 1 for j in range(c))
    ctx.label("consistent" if ok else "inconsistent", "separated" if sep else "general", "groups%d" % len(G))
    try:
        x0, space = ar.solve_csr_linear(MA, MB, x0_equal_indices=[list(g) for g in G])
    except ValueError as e:
        ctx.require(not ok, lambda: "consistent system rejected: %s" % e, "csr:rejected")
        return
    ctx.require(ok, lambda: "inconsistent system accepted, x0 = %s" % (x0,), "csr:accepted:" + ("separated" if sep else "general"))
    describes_all(ctx, A2, B2, 1, x0, space, c, "solve_csr_linear:" + ("separated" if sep else "general"))


def _rows_case():
    return st.tuples(st.integers(1, 5), st.integers(1, 4)).flatmap(lambda t: st.fixed_dictionaries({
        "A": lin.matrix(t[0], t[1], "rat"), "p": st.permutations(list(range(t[0]))).map(list), "ra": st.sampled_from(REPS)}))


@CHECK.sub("row_permutation", _rows_case, quick=300, thorough=3000, rule="row permutation helper on every representation")
def row_permutation(case, ctx):
    f = ctx.helper("triples.sdp.arithmetic", "_permute_matrix_rows")
    A = lin.mat(case["A"])
    c = len(A[0])
    M = lin.to_sympy(case["A"], c, case["ra"])
    want = [None] * len(A)
    for i, j in enumerate(case["p"]):
        want[j] = A[i]
    ctx.nontrivial(nz(A))
    same(ctx, f(M, case["p"]), want, "row permutation")
