"""C17: solved semidefinite programs are exactly feasible through all reductions."""
from fractions import Fraction as F

from hypothesis import strategies as st
import numpy as np
import sympy as sp

from .. import gen, lin, sdpgen
from ..core import Check

CHECK = Check("C17", rule="a rational semidefinite feasibility problem (planted feasible, arbitrary, or infeasible), a sequence of reductions, "
              "solves and registrations; every node of the chain is compared exactly with its affine family, its decomposition and the "
              "constraints imposed so far. Non-trivial: a solution was stored.")


@st.composite
def _ops(draw, n, dual=True):
    kinds = ["null", "null", "null", "null", "subspace", "zerodiag", "zerodiag", "equal", "symmetry", "cut", "deparam"] if dual else ["null", "null", "zerodiag", "zerodiag", "symmetry"]
    return [[draw(st.sampled_from(kinds)), draw(st.lists(st.integers(-2, 2), min_size=1, max_size=8)), draw(st.booleans())] for _ in range(draw(st.integers(0, n)))]


def _solve_cfg():
    return st.fixed_dictionaries({"solver": st.sampled_from([None, None, None, "cvxopt", "cvxopt", "cvxopt", "cvxopt", "picos"]), "obj": st.sampled_from([0, 0, 0, 1, 2, 3]),
                                  "eig": st.sampled_from([0, 0, 1, 2]), "default": st.sampled_from([1, 1, 2]), "numer": st.just(0),
                                  "scaling": st.sampled_from([6.0, 6.0, 0.0, 1.0]), "propagate": st.sampled_from([True, True, True, True, False]),
                                  "start": st.sampled_from(["root", "root", "leaf"])})


@st.composite
def _dual_case(draw):
    blks = draw(sdpgen.blocks())
    k = draw(st.integers(0, 4))
    return {"blocks": blks, "dirs": [draw(sdpgen.direction(blks, draw(st.booleans()))) for _ in range(k)],
            "y": draw(st.lists(gen.rats(5, 4), min_size=4, max_size=4)), "root": draw(st.sampled_from(["matrix", "matrix", "space", "full", "equations"])),
            "keyed": draw(st.sampled_from(["dict", "dict", "list", "odd"])), "noise": draw(st.lists(st.integers(-2, 2), min_size=3, max_size=6)),
            "eqs": draw(st.lists(st.lists(st.integers(-2, 2), min_size=1, max_size=9), min_size=0, max_size=5)),
            "feasible": draw(st.sampled_from([True, True, True, True, False])), "ops": draw(_ops(4)), "solve": draw(_solve_cfg()),
            "again": draw(st.sampled_from(["none", "none", "mix", "ops", "bad"])), "ops2": draw(_ops(1)), "names": draw(st.sampled_from(["t", "y_{", "z"]))}


def _keys(case, n):
    if case["keyed"] == "list":
        return ["S_%d" % i for i in range(n)]
    if case["keyed"] == "odd":
        return [sp.Symbol("k") + i for i in range(n)]
    return ["m%d" % i for i in range(n)]


def _sym(M):
    return lin.to_sympy(M, len(M))


def _vec(M):
    return [x for r in M for x in r]


def _col(v):
    return sp.Matrix(len(v), 1, [sp.Rational(x.numerator, x.denominator) for x in v])


def _data(case):
    """keys, planted matrices, directions (per dof: key -> matrix), constant part"""
    blks = case["blocks"]
    keys = _keys(case, len(blks))
    S = {k: sdpgen.planted(b) for k, b in zip(keys, blks)}
    dirs = [{k: sdpgen.direction_matrix(b, d) for k, b, d in zip(keys, blks, D)} for D in case["dirs"]]
    if not case["feasible"]:
        # a diagonal entry that is negative whatever the parameters are
        k = keys[case["noise"][0] % len(keys)]
        i = case["noise"][1] % len(S[k])
        S[k][i][i] = F(-1, 3)
        for D in dirs:
            D[k][i][i] = F(0)
    y = [lin.frac(v) if isinstance(v, (list, tuple)) else F(v) for v in case["y"][: len(dirs)]]
    x0 = {k: [[S[k][i][j] - sum((t * D[k][i][j] for t, D in zip(y, dirs)), F(0)) for j in range(len(S[k]))] for i in range(len(S[k]))] for k in keys}
    return keys, S, dirs, x0, y


def _splits(case, keys, S):
    return [len(S[k]) for k in keys] if case["keyed"] == "list" else {k: len(S[k]) for k in keys}


def _root(case, ctx):
    from triples.sdp import SDPProblem
    keys, S, dirs, x0, y = _data(case)
    kind = case["root"]
    dof = None
    if kind == "matrix":
        syms = [sp.Symbol(case["names"] + ("%d}" % (3 * i % 5) if case["names"].endswith("{") else str(i))) for i in range(len(dirs))]
        mats = {k: _sym(x0[k]) + sum((s * _sym(D[k]) for s, D in zip(syms, dirs)), sp.zeros(len(S[k]))) for k in keys}
        arg = mats if case["keyed"] != "list" else (list(mats.values()) if len(keys) > 1 else list(mats.values())[0])
        sdp = SDPProblem.from_matrix(arg)
    elif kind == "space":
        arg = {k: (_col(_vec(x0[k])), sp.Matrix.hstack(*[_col(_vec(D[k])) for D in dirs]) if dirs else sp.zeros(len(S[k])**2, 0)) for k in keys}
        sdp = SDPProblem(arg if case["keyed"] != "list" else list(arg.values()))
    elif kind == "full":
        # an asymmetric parametrisation: constrain_symmetry must recover the symmetric part
        base, cols = [], [[] for _ in dirs]
        extra = []
        for k in keys:
            base += _vec(x0[k])
            for c, D in zip(cols, dirs):
                c += _vec(D[k])
        N = len(base)
        off = 0
        for b, k in enumerate(keys):
            n = len(S[k])
            if n > 1 and case["noise"][b % len(case["noise"])]:
                v = [F(0)] * N
                i, j = b % n, (b + 1) % n
                v[off + i * n + j] = F(case["noise"][b % len(case["noise"])])
                v[off + j * n + i] = -v[off + i * n + j] if b % 2 else F(0)
                extra.append((v, off + j * n + i if b % 2 == 0 else None))
            off += n * n
        # a one sided direction also changes the symmetric part, so it only stays symmetric when switched off
        shift = F(case["noise"][2])
        allcols = [list(c) for c in cols] + [v for v, _ in extra]
        for v, _ in extra:
            base = [x + shift * z for x, z in zip(base, v)]
        sdp = SDPProblem.from_full_x0_and_space(_col(base), sp.Matrix.hstack(*[_col(c) for c in allcols]) if allcols else sp.zeros(N, 0),
                                                _splits(case, keys, S), constrain_symmetry=True)
        dof = len(dirs)
    else:
        N = sum(len(S[k])**2 for k in keys)
        vec = [x for k in keys for x in _vec(S[k])]
        rows = [[F(r[i % len(r)]) if (i * 7 + len(r)) % 3 or i < len(r) else F(0) for i in range(N)] for r in case["eqs"]] or [[F(0)] * N]
        rhs = [sum((a * b for a, b in zip(r, vec)), F(0)) for r in rows]
        eq = sp.Matrix(len(rows), N, [sp.Rational(x.numerator, x.denominator) for r in rows for x in r])
        sdp = SDPProblem.from_equations(eq, _col(rhs), _splits(case, keys, S))
        # symmetric solutions of the equations
        allrows = [(r, b) for r, b in zip(rows, rhs)]
        off = 0
        for k in keys:
            n = len(S[k])
            for i in range(n):
                for j in range(i):
                    r = [F(0)] * N
                    r[off + i * n + j], r[off + j * n + i] = F(1), F(-1)
                    allrows.append((r, F(0)))
            off += n * n
        dof = sdpgen.dimension(allrows, N)
    fam = sdpgen.Family(sdp)
    ctx.require(list(fam.keys) == keys, lambda: "keys %s, expected %s" % (fam.keys, keys), "root:keys")
    ctx.require(fam.contains(S), lambda: "%s: the constructed family does not contain the planted point %s" % (kind, S), "root:planted")
    if dof is not None and kind == "equations":
        ctx.require(sdp.dof == dof, lambda: "%s: %d parameters, the solution set has dimension %d" % (kind, sdp.dof, dof), "root:dimension")
    if kind in ("matrix", "space", "full"):
        for D in dirs:
            T = {k: [[a + b for a, b in zip(r, s)] for r, s in zip(S[k], D[k])] for k in keys}
            ctx.require(fam.contains(T), lambda: "%s: the constructed family misses a direction" % kind, "root:direction")
    for key in fam.keys:
        for M in [fam.x0[key]] + [d[key] for d in fam.dirs]:
            ctx.require(all(M[i][j] == M[j][i] for i in range(len(M)) for j in range(i)), lambda: "%s: asymmetric family" % kind, "root:symmetric")
    return sdp, keys, S


def _null_columns(S, coeffs, spare):
    """key -> columns in the kernel of the planted matrices (combinations chosen by coeffs), sometimes redundant"""
    out = {}
    for k, M in S.items():
        ker = sdpgen.kernel(M, len(M))
        cols = []
        for t in range(1 + abs(coeffs[0]) % len(ker) if ker else 0):
            c = [coeffs[(t + i) % len(coeffs)] for i in range(len(ker))]
            cols.append([sum((F(x) * v[j] for x, v in zip(c, ker)), F(0)) for j in range(len(M))])
        if spare and cols:
            cols.append([2 * x for x in cols[0]])
        out[k] = cols
    return out


def _as_matrices(cols, sizes):
    out = {}
    for k, cs in cols.items():
        out[k] = sp.Matrix.hstack(*[_col(c) for c in cs]) if cs else sp.zeros(sizes[k], 0)
    return out


def _apply(op, root, state, ctx):
    """Apply one reduction to the chain and check its promise; returns False when it is not applicable here."""
    kind, coeffs, flag = op
    leaf = root.get_last_child()
    S = state["S"]
    before = leaf.dof
    if kind in ("null", "cut"):
        if state["vector"]:
            return False
        cols = _null_columns(S, coeffs, flag) if kind == "null" else {k: [[F(coeffs[(i + j) % len(coeffs)]) for j in range(len(S[k]))] for i in range(1 if flag else 0)] for k in S}
        if kind == "cut" and not any(any(c) for cs in cols.values() for c in cs):
            return False
        extra = sdpgen.Family(root).null_rows(cols)
        promise = (state["rows"] or []) + extra
        dim = sdpgen.dimension(promise, root.dof) if state["rows"] is not None else None
        try:
            root.constrain_nullspace(_as_matrices(cols, {k: len(S[k]) for k in S}), to_child=True)
        except ValueError as e:
            ctx.require(kind == "cut", lambda: "nullspace of a feasible point rejected: %s" % e, "nullspace:rejected")
            if dim is not None:
                ctx.require(dim is None, lambda: "satisfiable nullspace constraint rejected: %s" % e, "nullspace:rejected")
            state["dead"] = True
            return True
        if state["rows"] is not None:
            ctx.require(dim is not None, "an unsatisfiable nullspace constraint was accepted", "nullspace:accepted")
            got = root.get_last_child().dof
            ctx.require(got == dim or _no_blocks(root), lambda: "nullspace constraint %s leaves %d parameters instead of %d" % (cols, got, dim), "nullspace:dimension")
            state["rows"] = promise
        state["null"].append(cols)
        if kind == "cut" and not all(_orthogonal(S[k], cols[k]) for k in S):
            state["S"] = None
        return True
    if kind == "subspace":
        if leaf is not root:
            return False
        cols = {}
        for k, M in S.items():
            n = len(M)
            cs = [list(r) for r in M]                       # the range of a symmetric matrix
            if flag and n > 1:
                cs.append([F(coeffs[j % len(coeffs)]) for j in range(n)])
            cols[k] = [c for c in cs if any(c)]
        if not any(cols.values()):
            return False                                     # an empty column space is taken as no constraint
        perp = {k: sdpgen.kernel(cols[k], len(S[k])) if cols[k] else [[F(int(i == j)) for j in range(len(S[k]))] for i in range(len(S[k]))] for k in S}
        dim = sdpgen.dimension(state["rows"] + sdpgen.Family(root).null_rows(perp), root.dof)
        root.constrain_subspace(_as_matrices(cols, {k: len(S[k]) for k in S}))
        got = root.get_last_child().dof
        ctx.require(got == dim or _no_blocks(root), lambda: "subspace constraint leaves %d parameters instead of %d" % (got, dim), "subspace:dimension")
        state["rows"] = state["rows"] + sdpgen.Family(root).null_rows(perp)
        state["null"].append(perp)
        return True
    if kind == "zerodiag":
        fam = sdpgen.Family(leaf)
        rows, masked = fam.zero_diagonal_rows(recursive=flag)
        dim = sdpgen.dimension(rows, leaf.dof)
        try:
            leaf.constrain_zero_diagonals(recursive=flag)
        except ValueError as e:
            ctx.require(dim is None, lambda: "zero diagonals: rejected although satisfiable: %s" % e, "zerodiag:rejected")
            state["dead"] = True
            return True
        got = root.get_last_child()
        ctx.require(dim is not None, "zero diagonals: unsatisfiable but accepted", "zerodiag:accepted")
        ctx.require(got.dof == dim, lambda: "zero diagonals: %d parameters instead of %d" % (got.dof, dim), "zerodiag:dimension")
        for k in fam.keys:
            n = len(fam.x0[k]) - len(masked[k])
            ctx.require(got.size.get(k, 0) == n, lambda: "zero diagonals: size of %s is %s instead of %d" % (k, got.size.get(k), n), "zerodiag:size")
        if state["rows"] is not None and leaf is root:
            state["rows"] = state["rows"] + rows
        elif state["rows"] is not None and any(masked.values()):
            state["rows"] = None                             # no longer expressible in the coordinates of the root
        return True
    if kind in ("symmetry", "equal", "deparam"):
        fam = sdpgen.Family(leaf)
        if kind == "deparam":
            leaf.deparametrize()
            ctx.require(root.get_last_child() is leaf, "nothing to deparametrise, but the problem changed", "deparam")
            return True
        if kind == "symmetry":
            leaf.constrain_symmetry()
            dim, rows = leaf.dof, []
        else:
            pairs, rows = {}, []
            ref = S if leaf is root else None
            for k in fam.keys:
                n = len(fam.x0[k])
                cand = [((i, j), (a, b)) for i in range(n) for j in range(n) for a in range(n) for b in range(n)
                        if (i, j) < (a, b) and (ref is None or ref[k][i][j] == ref[k][a][b])]
                pairs[k] = [cand[(c * 13 + 5) % len(cand)] for c in coeffs[:3]] if cand and ref is not None else []
                rows += [fam.equal_rows(k, p, q) for p, q in pairs[k]]
            dim = sdpgen.dimension(rows, leaf.dof)
            leaf.constrain_equal_entries(pairs)
            if leaf is root and state["rows"] is not None:
                state["rows"] = state["rows"] + rows
            state["equal"].append((leaf, pairs))
        now = root.get_last_child()
        if now is not leaf:
            state["vector"] = True
        ctx.require(now.dof == dim, lambda: "%s: %d parameters instead of %d" % (kind, now.dof, dim), kind + ":dimension")
        return True
    return False


def _inexact(node):
    return node.y is not None and any(not sp.sympify(x).is_Rational for x in node.y)


def _no_blocks(root):
    return not root.get_last_child().keys()


def _orthogonal(M, cols):
    return all(sum((M[i][j] * v[j] for j in range(len(M))), F(0)) == 0 for v in cols for i in range(len(M)))


def _chain(root):
    out = [root]
    while out[-1].children:
        out.append(out[-1].children[-1])
    return out


def _check_node(node, ctx, what, params=None):
    ctx.require(node.y is not None and node.S is not None and node.decompositions is not None, lambda: "%s: solved, but a node has no stored solution" % what, "stored")
    S2 = node.S_from_y(node.y)
    ctx.require(set(S2) == set(node.S) == set(node.decompositions), lambda: "%s: keys %s / %s / %s" % (what, set(S2), set(node.S), set(node.decompositions)), "keys")
    for k, M in node.S.items():
        W = S2[k].xreplace(params) if params else S2[k]
        U, D = node.decompositions[k]
        D = list(D)
        ctx.require(all(sp.sympify(x).is_Rational for x in M) and all(sp.sympify(x).is_Rational for x in node.y), lambda: "%s: not rational: %s" % (what, M.tolist()), "rational")
        ctx.require(M.shape == W.shape and (M - W).is_zero_matrix is not False and all(x == 0 for x in (M - W)),
                    lambda: "%s: stored matrix %s, family at the stored parameters %s" % (what, M.tolist(), W.tolist()), "family")
        A = lin.from_sympy(M)
        ctx.require(all(A[i][j] == A[j][i] for i in range(len(A)) for j in range(i)), lambda: "%s: asymmetric %s" % (what, M.tolist()), "symmetric")
        ctx.require(lin.is_psd(A), lambda: "%s: not positive semidefinite: %s" % (what, M.tolist()), "psd")
        ctx.require(all(x >= 0 for x in D), lambda: "%s: negative weight in the decomposition %s" % (what, D), "decomposition")
        R = U.T * sp.diag(*D) * U if len(D) else sp.zeros(*M.shape)
        ctx.require(R.shape == M.shape and all(x == 0 for x in (R - M)), lambda: "%s: decomposition of %s gives %s" % (what, M.tolist(), R.tolist()), "decomposition")


def _check_chain(root, state, ctx, what):
    for node in _chain(root):
        _check_node(node, ctx, what)
    for cols in state["null"]:
        for k, cs in cols.items():
            ctx.require(_orthogonal(lin.from_sympy(root.S[k]), cs), lambda: "%s: nullspace constraint violated by %s" % (what, root.S[k].tolist()), "nullspace:violated")
    for node, pairs in state["equal"]:
        for k, ps in pairs.items():
            for p, q in ps:
                ctx.require(node.S is None or node.S[k][p] == node.S[k][q], lambda: "%s: equality of entries %s and %s violated" % (what, p, q), "equal:violated")


def _solve(root, cfg, ctx, state, feasible, what):
    leaf = root.get_last_child()
    start = root if cfg["start"] == "root" else leaf
    kw = {"solver": cfg["solver"], "allow_numer": cfg["numer"], "scaling": cfg["scaling"], "propagate_to_parent": cfg["propagate"]}
    if cfg["obj"]:
        if cfg["obj"] == 1 or not leaf.dof:
            kw["objective"] = np.array([float((3 * i + 1) % 5 - 2) for i in range(leaf.dof)])
        elif cfg["obj"] == 2:
            kw["objective"] = sum(((2 * i % 3) - 1) * s for i, s in enumerate(leaf.free_symbols)) + sp.Integer(0)
        else:
            kw["objective"] = [np.array([float(i % 2) for i in range(leaf.dof)]), -sum(leaf.free_symbols)]
        n = len(kw["objective"]) if isinstance(kw["objective"], list) else 1
        kw["constraints"] = [[] for _ in range(n)] if n > 1 else []
        e = {0: 0, 1: 1e-3, 2: (1, 0)}[cfg["eig"]]
        if cfg["eig"] == 2 and cfg["obj"] != 1:
            e = 0
        if cfg["eig"] == 1:
            e = {k: 1e-3 for k in list(leaf.keys())[:1]}
        kw["min_eigen"] = [e] * n if n > 1 else e
        if cfg["eig"] == 2 and cfg["obj"] == 1:
            kw["objective"] = np.append(kw["objective"] * 0, -1.0)
        kw["use_default_configs"] = cfg["default"]
    old = [(n, n.y) for n in _chain(root)]
    try:
        ok = start.solve(**kw)
    except Exception as e:
        if type(e).__name__ != "SDPRationalizeError" and not (cfg["numer"] and _inexact(leaf)):
            raise
        ctx.label("not rationalised")
        ok = False
    if not ok:
        ctx.label("unsolved feasible" if feasible else "unsolved")
        return False
    ctx.nontrivial()
    ctx.label("solved", "solver:%s" % cfg["solver"], "chain%d" % len(_chain(root)), "dof%d" % leaf.dof, "numer%d" % cfg["numer"])
    if _inexact(leaf):
        # an inexact answer was asked for: nothing is promised about it
        ctx.label("numeric solution")
        ctx.require(cfg["numer"] > 0, "an inexact solution was stored", "rational")
        return True
    if not cfg["propagate"]:
        for n, y in old:
            ctx.require(n is leaf or n.y is y, "propagate_to_parent=False changed a parent", "propagate")
        _check_node(leaf, ctx, what)
        leaf.propagate_to_parent()
    _check_chain(root, state, ctx, what)
    return True


@CHECK.sub("dual", _dual_case, quick=800, thorough=30000, shards=8, case_timeout=15,
           rule="dual problems built in four ways (symbolic matrices, affine families, asymmetric parametrisations, linear equations), up to "
                "four reductions, solve, then convex combinations, further reductions, or rejected registrations")
def dual(case, ctx):
    root, keys, S = _root(case, ctx)
    ctx.label("root:" + case["root"])
    state = {"S": S if case["feasible"] else None, "rows": [], "null": [], "equal": [], "vector": False, "dead": False}
    _reduce(case["ops"], root, state, ctx, S)
    if state["dead"]:
        ctx.label("infeasible reduction")
        return
    ok = _solve(root, case["solve"], ctx, state, case["feasible"], "solve")
    if not ok or case["solve"]["numer"]:
        return
    _afterwards(case, root, state, ctx, S)


def _reduce(ops, root, state, ctx, S):
    for op in ops:
        if state["dead"]:
            return
        if state["S"] is None and op[0] in ("null", "subspace", "equal", "cut"):
            continue
        if op[0] in ("subspace", "equal") and state["rows"] is None:
            continue
        if _apply(op, root, state, ctx):
            ctx.label("op:" + op[0])


def _afterwards(case, root, state, ctx, S):
    leaf = root.get_last_child()
    if case["again"] == "mix" and leaf.dof:
        y1 = sp.Matrix(leaf.y)
        try:
            cfg = dict(case["solve"], obj=1, eig=0, default=1)
            if not _solve(root, cfg, ctx, state, True, "second solve"):
                return
        except ValueError:
            raise
        y2 = sp.Matrix(leaf.y)
        t = sp.Rational(abs(case["noise"][0]) + 1, 4)
        mid = t * y1 + (1 - t) * y2
        leaf.register_y(mid)                     # feasible sets are convex
        ctx.label("mixed")
        ctx.require(list(leaf.y) == list(mid), "registered point is not stored", "register")
        _check_chain(root, state, ctx, "convex combination")
    elif case["again"] == "bad" and leaf.dof:
        # register a point outside the feasible set, if one is found on a line
        y0 = sp.Matrix(leaf.y)
        for s in (1000, -1000):
            y = y0 + s * sp.Matrix([(i * 3 + 1) % 4 - 1 for i in range(leaf.dof)])
            if all(lin.is_psd(lin.from_sympy(M)) for M in leaf.S_from_y(y).values()):
                leaf.register_y(y)
                _check_chain(root, state, ctx, "registered")
                return
            ctx.label("rejected registration")
            ctx.require(ctx.raises(ValueError, leaf.register_y, y), lambda: "infeasible point %s registered" % y, "register")
            ctx.require(list(leaf.y) == list(y0), "a rejected registration changed the stored point", "register")
        _check_chain(root, state, ctx, "after a rejected registration")
    elif case["again"] == "ops" and case["feasible"]:
        _reduce(case["ops2"], root, state, ctx, S)
        if state["dead"] or root.get_last_child() is leaf:
            return
        new = root.get_last_child()
        ctx.require(new.y is None or new is leaf, "a fresh reduction is already solved", "fresh")
        _solve(root, case["solve"], ctx, state, True, "solve after further reductions")


# ---------------------------------------------------------------- the primal form
@st.composite
def _primal_case(draw):
    return {"blocks": draw(sdpgen.blocks()), "keyed": draw(st.sampled_from(["dict", "list"])),
            "eqs": draw(st.lists(st.lists(st.integers(-2, 2), min_size=1, max_size=9), min_size=1, max_size=4)),
            "diag": draw(st.lists(st.lists(st.integers(0, 2), min_size=1, max_size=5), max_size=2)), "asym": draw(st.sampled_from([False, False, True])),
            "full": draw(st.booleans()), "ops": draw(_ops(3, dual=False)), "dual": draw(st.sampled_from([False, False, True])),
            "solve": draw(_solve_cfg()), "numer": 0, "feasible": draw(st.sampled_from([True, True, True, False]))}


@CHECK.sub("primal", _primal_case, quick=300, thorough=14000, shards=8, case_timeout=20,
           rule="problems given by linear equations on the matrices (symmetric or one-sided, some forcing zero diagonals), reductions, "
                "conversion to dual form, solve; the stored matrices satisfy the equations exactly")
def primal(case, ctx):
    from triples.sdp import SDPPrimal
    keys = _keys(case, len(case["blocks"]))
    S = {k: sdpgen.planted(b) for k, b in zip(keys, case["blocks"])}
    rows = []
    for r in case["eqs"]:
        row, t = {}, 0
        for k in keys:
            n = len(S[k])
            A = sdpgen.zeros(n)
            for i in range(n):
                for j in range(i + 1):
                    v = F(r[t % len(r)]) if t < 2 * len(r) else F(0)
                    t += 1
                    if case["asym"]:
                        A[j][i] = v                     # the sum over i, j only uses one of the two entries
                    else:
                        A[i][j] = A[j][i] = v
            row[k] = A
        rows.append(row)
    for d in case["diag"]:
        # a combination of diagonal entries on which the planted point vanishes
        row = {k: sdpgen.zeros(len(S[k])) for k in keys}
        for k in keys:
            for i in range(len(S[k])):
                if S[k][i][i] == 0:
                    row[k][i][i] = F(d[i % len(d)])
        rows.append(row)
    rhs = [sum((row[k][i][j] * S[k][i][j] for k in keys for i in range(len(S[k])) for j in range(len(S[k]))), F(0)) for row in rows]
    if not case["feasible"]:
        row = {k: sdpgen.zeros(len(S[k])) for k in keys}
        row[keys[0]][0][0] = F(1)
        rows.append(row)
        rhs.append(F(-1))
    space = {k: sp.Matrix(len(rows), len(S[k])**2, [sp.Rational(x.numerator, x.denominator) for row in rows for x in _vec(row[k])]) for k in keys}
    x0 = _col(rhs)
    if case["full"]:
        full = sp.Matrix.hstack(*space.values())
        root = SDPPrimal.from_full_x0_and_space(x0, full, _splits(case, keys, S))
    else:
        root = SDPPrimal(x0, space if case["keyed"] == "dict" else list(space.values()))
    nulls = []
    for kind, coeffs, flag in case["ops"]:
        leaf = root.get_last_child()
        if kind == "null" and case["feasible"]:
            cols = _null_columns(S, coeffs, flag)
            root.constrain_nullspace(_as_matrices(cols, {k: len(S[k]) for k in S}), to_child=True)
            nulls.append(cols)
            ctx.label("op:null")
        elif kind == "symmetry":
            leaf.constrain_symmetry()
            ctx.label("op:symmetry")
        elif kind == "zerodiag" and not nulls:
            leaf.constrain_zero_diagonals(recursive=flag)
            ctx.label("op:zerodiag")
            if case["feasible"] and not nulls:
                # masked rows must vanish at every feasible point, in particular at the planted one
                got = root.get_last_child().size
                for k in keys:
                    ctx.require(got[k] >= len(S[k]) - sum(1 for i in range(len(S[k])) if S[k][i][i] == 0),
                                lambda: "zero diagonals removed %d rows of %s, the feasible point %s has fewer zero rows" % (len(S[k]) - got[k], k, S[k]), "primal:zerodiag")
    leaf = root.get_last_child()
    if case["dual"]:
        try:
            leaf = leaf.to_dual()
        except ValueError as e:
            ctx.require(not case["feasible"], lambda: "feasible problem has no dual form: %s" % e, "primal:dual")
            return
        ctx.label("to dual")
    cfg = case["solve"]
    try:
        ok = root.solve(solver=None if not case["dual"] else cfg["solver"], allow_numer=case["numer"], scaling=cfg["scaling"])
    except Exception as e:
        if type(e).__name__ != "SDPRationalizeError" and not (case["numer"] and _inexact(leaf)):
            raise
        ctx.label("not rationalised")
        return
    if not ok:
        ctx.label("unsolved feasible" if case["feasible"] else "unsolved")
        return
    ctx.nontrivial()
    ctx.label("solved", "chain%d" % len(_chain(root)), "numer%d" % case["numer"])
    if _inexact(leaf):
        ctx.require(case["numer"] > 0, "an inexact solution was stored", "rational")
        ctx.label("numeric solution")
        return
    for node in _chain(root):
        _check_node(node, ctx, "primal")
    A = {k: lin.from_sympy(M) for k, M in root.S.items()}
    for row, b in zip(rows, rhs):
        v = sum((row[k][i][j] * A[k][i][j] for k in keys for i in range(len(A[k])) for j in range(len(A[k]))), F(0))
        ctx.require(v == b, lambda: "an equation has value %s instead of %s at the stored point" % (v, b), "primal:equation")
    for cols in nulls:
        for k, cs in cols.items():
            ctx.require(_orthogonal(A[k], cs), "nullspace constraint violated", "primal:nullspace")


# ---------------------------------------------------------------- parameters inside the matrices
@st.composite
def _param_case(draw):
    c = draw(_dual_case())
    c["root"] = "space"
    c["params"] = [draw(sdpgen.direction(c["blocks"], True)) for _ in range(draw(st.integers(1, 2)))]
    c["t"] = draw(st.lists(gen.rats(4, 3), min_size=2, max_size=2))
    c["feasible"] = True
    c["clash"] = draw(st.booleans())
    return c


@CHECK.sub("parameters", _param_case, quick=200, thorough=9000, shards=4, case_timeout=15, hang=True,
           rule="affine families whose constant part contains symbolic parameters: after deparametrisation, reductions and solve, the stored "
                "matrices equal the family at the stored parameters with the symbols set to the values found")
def parameters(case, ctx):
    from triples.sdp import SDPProblem
    keys, S, dirs, x0, y = _data(case)
    ts = [sp.Symbol("y_{%d}" % i if case["clash"] else "t%d" % i) for i in range(len(case["params"]))]
    tv = [gen.R(v) for v in case["t"]]
    P = [{k: sdpgen.direction_matrix(b, d) for k, b, d in zip(keys, case["blocks"], D)} for D in case["params"]]
    arg = {}
    for k in keys:
        base = _col(_vec(x0[k]))
        for t, v, D in zip(ts, tv, P):
            base = base + (t - v) * _col(_vec(D[k]))
        arg[k] = (base, sp.Matrix.hstack(*[_col(_vec(D[k])) for D in dirs]) if dirs else sp.zeros(len(S[k])**2, 0))
    root = SDPProblem(arg)
    used = set().union(*[a.free_symbols for a, _ in arg.values()]) if arg else set()
    leaf = root.deparametrize()
    ctx.require(root.get_last_child() is leaf, "deparametrisation is not the last child", "deparam")
    ctx.require(leaf.dof == root.dof + len(used), lambda: "%d parameters after deparametrising %s of a problem with %d" % (leaf.dof, used, root.dof), "deparam")
    fam = sdpgen.Family(leaf)
    ctx.require(fam.contains(S), "the planted point was lost", "deparam:planted")
    state = {"S": S, "rows": [], "null": [], "equal": [], "vector": False, "dead": False}
    for op in case["ops"]:
        if op[0] in ("null", "zerodiag") and not state["dead"]:
            if op[0] == "null":
                cols = _null_columns(S, op[1], op[2])
                root.constrain_nullspace(_as_matrices(cols, {k: len(S[k]) for k in S}), to_child=True)
                state["null"].append(cols)
            else:
                _apply(op, root, dict(state, rows=None), ctx)
    cfg = dict(case["solve"], numer=0)
    try:
        ok = root.solve(solver=cfg["solver"], scaling=cfg["scaling"])
    except Exception as e:
        if type(e).__name__ != "SDPRationalizeError":
            raise
        ok = False
    if not ok:
        ctx.label("unsolved")
        return
    ctx.nontrivial()
    ctx.label("solved", "chain%d" % len(_chain(root)))
    params = leaf.as_params()
    ctx.require(used <= set(params), lambda: "no values for the symbols %s" % (used - set(params)), "deparam:values")
    params = {s: params[s] for s in used}
    _check_node(root, ctx, "root", params=params)
    for node in _chain(root)[1:]:
        _check_node(node, ctx, "child")
    for cols in state["null"]:
        for k, cs in cols.items():
            ctx.require(_orthogonal(lin.from_sympy(root.S[k]), cs), "nullspace constraint violated", "nullspace:violated")


# ---------------------------------------------------------------- extra constraints, in all their spellings
def _feasible_point(case, ctx):
    """the problem, its reductions, and feasible parameters of the last one"""
    root, keys, S = _root(case, ctx)
    state = {"S": S, "rows": [], "null": [], "equal": [], "vector": False, "dead": False}
    _reduce(case["ops"], root, state, ctx, S)
    leaf = root.get_last_child()
    if state["dead"] or not leaf.keys():
        return None
    try:
        if not root.solve():
            return None
    except Exception as e:
        if type(e).__name__ != "SDPRationalizeError":
            raise
        return None
    return [F(int(v.p), int(v.q)) for v in leaf.y]


def _rebuild(case, ctx):
    root, keys, S = _root(case, ctx)
    state = {"S": S, "rows": [], "null": [], "equal": [], "vector": False, "dead": False}
    _reduce(case["ops"], root, state, ctx, S)
    return root, state


@st.composite
def _extra_case(draw):
    c = draw(_dual_case())
    blks = c["blocks"]
    c["dirs"] = [draw(sdpgen.direction(blks, draw(st.booleans()))) for _ in range(draw(st.integers(1, 3)))]
    c["root"] = draw(st.sampled_from(["matrix", "space"]))
    c["feasible"] = True
    c["cons"] = draw(st.lists(st.fixed_dictionaries({
        "a": st.lists(st.integers(-2, 2), min_size=3, max_size=3), "op": st.sampled_from([">=", ">=", "<=", "=="]),
        "slack": st.sampled_from([0, 0, [1, 2], 2]), "how": st.integers(0, 7), "how2": st.integers(0, 7)}), min_size=1, max_size=3))
    c["clash"] = draw(st.sampled_from([False, False, False, True]))
    c["ops"] = draw(_ops(1)) if draw(st.booleans()) else []
    c["push"] = draw(st.sampled_from([0, 1, 1, 1]))
    c["solver"] = draw(st.sampled_from([None, "cvxopt", "picos"]))
    return c


def _spell(how, a, op, r, syms, keys):
    """a . y (op) r in one of eight spellings"""
    e = sum((x * s for x, s in zip(a, syms)), sp.Integer(0))
    if not e.free_symbols:
        how = 4 + how % 2                              # a relation between numbers is a truth value
    rel = {">=": sp.Ge, "<=": sp.Le, "==": sp.Eq}[op]
    back = {">=": sp.Le, "<=": sp.Ge, "==": sp.Eq}[op]
    strict = {">=": sp.Gt, "<=": sp.Lt, "==": sp.Eq}[op]
    row, f = np.array([float(x) for x in a]), float(r)
    if how == 0:
        return rel(e, r, evaluate=False)
    if how == 1:
        return back(r, e, evaluate=False)
    if how == 2:
        return rel(e - r, 0, evaluate=False)
    if how == 3:
        return back(-e + 1, 1 - r, evaluate=False)
    if how == 4:
        return (row, f, op)
    if how == 5:
        return (row, f, {">=": "__ge__", "<=": "__le__", "==": "__eq__"}[op])
    if how == 6:
        return strict(e + 1, r + 1, evaluate=False)
    return lambda local: rel(e + local[keys[0]][0, 0], r + local[keys[0]][0, 0], evaluate=False)


@CHECK.sub("constraints", _extra_case, quick=400, thorough=12000, shards=8, case_timeout=20,
           rule="affine families of one to three parameters solved under extra linear constraints (equations, inequalities in either direction, "
                "written as relations, strict relations, coefficient rows, functions of the matrices): whether there is an answer does not depend on "
                "the spelling, it satisfies the constraints up to the rounding of the parameters, and contradictory constraints have no answer")
def constraints(case, ctx):
    got = []
    y0 = _feasible_point(case, ctx)
    if not y0:
        ctx.skip("no feasible point found, or no parameter")
    for which in ("how", "how2"):
        root, state = _rebuild(case, ctx)
        leaf = root.get_last_child()
        if not any(leaf.size.values()):
            return
        cons, args = [], []
        for k in case["cons"]:
            a = [F(x) for x in k["a"][: leaf.dof]]
            at = sum((x * v for x, v in zip(a, y0)), F(0))
            s = lin.frac(k["slack"]) if isinstance(k["slack"], list) else F(k["slack"])
            r = at - s if k["op"] == ">=" else at + s if k["op"] == "<=" else at
            cons.append((a, k["op"], r))
        if case["clash"]:
            a, op, r = cons[0]
            gap = sum(map(abs, a)) + 3
            cons.append((a, "<=", r - gap) if op != "<=" else (a, ">=", r + gap))
        q = lambda x: sp.Rational(x.numerator, x.denominator)
        for i, (a, op, r) in enumerate(cons):
            args.append(_spell(case["cons"][i % len(case["cons"])][which], [q(x) for x in a], op, q(r), leaf.free_symbols, [k for k, n in leaf.size.items() if n]))
        a = cons[0][0]
        obj = np.array([float(x) * (1 if cons[0][1] != "<=" else -1) * case["push"] for x in a])
        try:
            ok = root.solve(objective=obj, constraints=args, min_eigen=0, use_default_configs=0, solver=case["solver"])
        except Exception as e:
            if type(e).__name__ != "SDPRationalizeError":
                raise
            ok = None
        got.append(ok)
        if not ok:
            ctx.label("clash" if case["clash"] else "unsolved")
            continue
        ctx.nontrivial()
        ctx.label("solved", "dof%d" % leaf.dof, "hows%s" % sorted({k["how"] for k in case["cons"]}))
        y = [F(int(v.p), int(v.q)) for v in leaf.y]
        for a, op, r in cons:
            v = sum((x * t for x, t in zip(a, y)), F(0))
            tol = sum(map(abs, a)) * F(51, 100) + (sum((abs(x * t) for x, t in zip(a, y)), F(0)) + abs(r)) / 1000 + F(1, 1000)
            bad = v < r - tol if op == ">=" else v > r + tol if op == "<=" else abs(v - r) > tol
            ctx.require(not bad, lambda: "solved at %s, where %s has value %s, although it was to be %s %s" % (y, a, v, op, r), "constraints:violated")
        _check_chain(root, state, ctx, "solve under constraints")
    if len(got) == 2:
        # the back ends are not deterministic: only answers that are no borderline cases are compared
        firm = case["solver"] != "picos" and not case["clash"] and all(any(a) and op != "==" and k["slack"] for (a, op, r), k in zip(cons, case["cons"]))
        ctx.label("firm") if firm else None
        ctx.require(not firm or got[0] == got[1], lambda: "the same constraints in two spellings: solved %s and %s" % tuple(got), "constraints:spelling")
    if case["clash"] and got:
        ctx.nontrivial()


# ---------------------------------------------------------------- the family itself, and solutions given by hand
@st.composite
def _hand_case(draw):
    c = draw(_dual_case())
    c["root"] = draw(st.sampled_from(["matrix", "space", "full"]))
    c["feasible"] = True
    c["how"] = draw(st.sampled_from(["dict", "dict", "array", "column", "row", "flat"]))
    c["ops"] = draw(_ops(3))
    c["drop"] = draw(st.sampled_from([0, 0, 0, 1]))
    return c


@CHECK.sub("given", _hand_case, quick=500, thorough=15000, shards=8, case_timeout=15, hang=True,
           rule="the matrices of the family at parameters given as a mapping, a row, a column or an array, and feasible parameters registered "
                "by hand in any of these forms at the end of a chain of reductions; incomplete or too long parameters are refused")
def given(case, ctx):
    import contextlib
    import io
    root, state = _rebuild(case, ctx)
    leaf = root.get_last_child()
    if state["dead"] or not leaf.keys():
        return
    chain = _chain(root)
    for p, c in zip(chain, chain[1:]):
        t = p.common_transform(c)
        ctx.require(t is not None and t is c.common_transform(p) and t.is_parent(p) and t.is_child(c) and not t.is_child(p) and c in p.children and p in c.parents,
                    "a problem and its reduction are not linked in both directions", "given:link")
    with contextlib.redirect_stdout(io.StringIO()) as out:
        root.print_graph()
    ctx.require(len(out.getvalue().strip().split("\n")) == len(chain), lambda: "printed %d nodes of %d" % (out.getvalue().count("\n"), len(chain)), "given:graph")
    y = _feasible_point(case, ctx)
    if y is None:
        ctx.skip("no feasible point found")
    fam = sdpgen.Family(leaf)
    syms = list(leaf.free_symbols)
    want = {k: lin.to_sympy(fam.at(k, y), len(fam.x0[k])) for k in fam.keys}
    y = [sp.Rational(v.numerator, v.denominator) for v in y]
    forms = {"dict": dict(zip(syms, y)), "column": sp.Matrix(len(y), 1, y), "row": sp.Matrix(1, len(y), y),
             "array": np.array(y, dtype=object).reshape(-1, 1), "flat": np.array(y, dtype=object)}
    for n, v in forms.items():
        got = leaf.S_from_y(v)
        for k in fam.keys:
            ctx.require(got[k].shape == want[k].shape and all(x == z for x, z in zip(got[k], want[k])),
                        lambda: "the matrix %s at %s given as a %s is %s instead of %s" % (k, y, n, got[k].tolist(), want[k].tolist()), "given:family")
    sym = leaf.S_from_y()
    for k in fam.keys:
        M = sym[k].xreplace(forms["dict"])
        ctx.require(M.shape == want[k].shape and all(x == z for x, z in zip(M, want[k])), lambda: "the symbolic matrix %s is %s" % (k, sym[k].tolist()), "given:symbolic")
    if syms:
        part = leaf.S_from_y({syms[0]: y[0]})
        for k in fam.keys:
            M = part[k].xreplace(dict(zip(syms[1:], y[1:])))
            ctx.require(M.shape == want[k].shape and all(x == z for x, z in zip(M, want[k])), lambda: "partly replaced matrix %s is %s" % (k, part[k].tolist()), "given:partial")
    for bad in (sp.Matrix(len(y) + 1, 1, y + [1]), np.array(y + [sp.Integer(1)], dtype=object)):
        ctx.require(ctx.raises(ValueError, leaf.S_from_y, bad), "too many parameters accepted", "given:size")
    how = case["how"]
    if not all(lin.is_psd(lin.from_sympy(M)) for M in want.values()):
        return
    ctx.nontrivial()
    ctx.label("registered", "as " + how, "chain%d" % len(chain))
    arg = forms[how]
    if how == "dict" and case["drop"] and len(syms):
        arg = dict(list(arg.items())[1:])
        if arg or len(syms) > 1:
            ctx.require(ctx.raises(ValueError, leaf.register_y, arg), lambda: "%s registered for the parameters %s" % (arg, syms), "given:missing")
            ctx.require(all(n.y is None for n in chain), "a refused registration left a solution", "given:missing")
        return
    leaf.register_y(arg)
    ctx.require(all(sp.sympify(leaf.as_params()[s]) == v for s, v in zip(syms, y)), lambda: "registered %s, parameters are %s" % (y, leaf.as_params()), "given:params")
    _check_chain(root, state, ctx, "registered")


@st.composite
def _project_case(draw):
    sizes = draw(st.lists(st.integers(1, 3), min_size=1, max_size=3))
    n = sum(m * m for m in sizes)
    small = st.integers(-3, 3)
    k = draw(st.integers(1, min(4, n)))
    return {"sizes": sizes, "rows": [draw(st.lists(small, min_size=n, max_size=n)) for _ in range(k)],
            "rhs": draw(st.lists(gen.rats(5, 3), min_size=k, max_size=k)), "y": draw(st.lists(gen.rats(5, 3), min_size=n, max_size=n)),
            "on": draw(st.booleans()), "form": draw(st.sampled_from(["matrix", "array", "float"]))}


@CHECK.sub("projection", _project_case, quick=300, thorough=8000, shards=4, case_timeout=15, hang=True,
           rule="SDPPrimal: matrices of a vector, symbolic matrices, and the projection onto linearly independent equations, which must satisfy "
                "them, change nothing that already does, and move along the span of the equations only")
def projection(case, ctx):
    from triples.sdp import SDPPrimal
    rows = [[F(x) for x in r] for r in case["rows"]]
    if lin.rank(rows) < len(rows):
        ctx.skip("dependent equations")
    q = lambda x: sp.Rational(x.numerator, x.denominator)
    y = [F(int(gen.R(v).p), int(gen.R(v).q)) for v in case["y"]]
    b = [sum((x * z for x, z in zip(r, y)), F(0)) for r in rows] if case["on"] else [F(int(gen.R(v).p), int(gen.R(v).q)) for v in case["rhs"]]
    A = sp.Matrix([[q(x) for x in r] for r in rows])
    space, off = {}, 0
    for i, m in enumerate(case["sizes"]):
        space["k%d" % i] = A[:, off: off + m * m]
        off += m * m
    p = SDPPrimal(sp.Matrix([q(x) for x in b]), space)
    col = sp.Matrix([q(x) for x in y])
    ctx.require(p.dof == len(y) and dict(p.size) == {"k%d" % i: m for i, m in enumerate(case["sizes"])}, lambda: "sizes %s" % dict(p.size), "projection:size")
    S = p.S_from_y(col)
    sym = p.S_from_y()
    off = 0
    for i, m in enumerate(case["sizes"]):
        k = "k%d" % i
        ctx.require(S[k].shape == (m, m) and list(S[k]) == list(col[off: off + m * m]), lambda: "matrix %s of %s is %s" % (k, y, S[k].tolist()), "projection:matrix")
        ctx.require(sym[k].shape == (m, m) and sym[k] == sym[k].T and len(sym[k].free_symbols) == m * (m + 1) // 2, lambda: "symbolic matrix %s" % sym[k].tolist(), "projection:symbolic")
        off += m * m
    ctx.require(len(set().union(*[s.free_symbols for s in sym.values()])) == sum(m * (m + 1) // 2 for m in case["sizes"]), "the symbolic matrices share entries", "projection:symbolic")
    arg = {"matrix": col, "array": np.array(list(col), dtype=object), "float": np.array([float(v) for v in y])}[case["form"]]
    z = p.project(arg)
    ctx.nontrivial()
    ctx.label(case["form"], "on" if case["on"] else "off")
    d = [sp.sympify(v) - w for v, w in zip(z, col)]
    res = list(A * sp.Matrix(list(z)) - sp.Matrix([q(x) for x in b]))
    if case["form"] == "float":
        tol = 1e-8 * (1 + max(abs(float(x)) for x in list(b) + y))
        ctx.require(all(abs(x) < tol * 100 for x in res), lambda: "the projection of %s leaves the residual %s" % (y, res), "projection:feasible")
        ctx.require(not case["on"] or all(abs(x) < tol * 100 for x in d), lambda: "a feasible point was moved by %s" % d, "projection:moved")
        return
    ctx.require(all(x == 0 for x in res), lambda: "the projection of %s leaves the residual %s" % (y, res), "projection:feasible")
    ctx.require(not case["on"] or all(x == 0 for x in d), lambda: "a feasible point was moved by %s" % d, "projection:moved")
    ctx.require(lin.rank(rows + [[F(int(x.p), int(x.q)) for x in d]]) == len(rows), lambda: "moved by %s, not along the equations" % d, "projection:nearest")
