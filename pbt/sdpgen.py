"""Semidefinite feasibility problems over the rationals with a planted feasible point, and exact affine reasoning about them."""
from fractions import Fraction as F

from hypothesis import strategies as st
import sympy as sp

from . import lin


# ---------------------------------------------------------------- generated data
def _vecs(n, k):
    return st.lists(st.lists(st.integers(-2, 2), min_size=n, max_size=n), min_size=0, max_size=k)


@st.composite
def blocks(draw, count=(1, 1, 2, 2, 3), sizes=(1, 2, 2, 3, 3, 4)):
    """[(size, generators of the planted matrix, its weights, coefficients of the directions in terms of them or at random)]"""
    out = []
    for _ in range(draw(st.sampled_from(list(count)))):
        n = draw(st.sampled_from(list(sizes)))
        gens = draw(_vecs(n, n))
        if draw(st.integers(0, 2)) == 0:
            gens = gens + [[int(i == j) for j in range(n)] for i in range(n)]
        w = draw(st.lists(st.one_of(st.integers(1, 5), st.tuples(st.integers(1, 9), st.integers(1, 7)).map(list)), min_size=len(gens), max_size=len(gens)))
        out.append([n, gens, w])
    return out


@st.composite
def direction(draw, blks, free):
    """One symmetric direction per block: inside the span of the generators (kernel preserving) or arbitrary."""
    out = []
    for n, gens, _ in blks:
        m = len(gens)
        if m and not (free and draw(st.booleans())):
            c = draw(st.lists(st.tuples(st.integers(0, m - 1), st.integers(0, m - 1), st.integers(-3, 3)).map(list), max_size=3))
            out.append(["in", c])
        elif free:
            out.append(["any", draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1), st.one_of(st.integers(-3, 3), st.tuples(st.integers(-5, 5), st.integers(1, 6)).map(list))).map(list), max_size=4))])
        else:
            out.append(["in", []])
    return out


def zeros(n):
    return [[F(0)] * n for _ in range(n)]


def planted(blk):
    n, gens, w = blk
    S = zeros(n)
    for g, c in zip(gens, w):
        for i in range(n):
            for j in range(n):
                S[i][j] += lin.frac(c) * g[i] * g[j]
    return S


def direction_matrix(blk, d):
    n, gens, _ = blk
    A = zeros(n)
    for i, j, c in d[1]:
        c = lin.frac(c)
        if d[0] == "in":
            u, v = gens[i], gens[j]
            for a in range(n):
                for b in range(n):
                    A[a][b] += c * (u[a] * v[b] + v[a] * u[b])
        else:
            A[i][j] += c
            if i != j:
                A[j][i] += c
    return A


def kernel(rows, n):
    """Basis (as rows) of the vectors x with every row . x = 0."""
    R, piv = lin.rref(rows) if rows else ([], [])
    free = [c for c in range(n) if c not in piv]
    out = []
    for f in free:
        x = [F(0)] * n
        x[f] = F(1)
        for r, p in zip(R, piv):
            x[p] = -r[f]
        out.append(x)
    return out


# ---------------------------------------------------------------- exact reasoning
def rank_aug(rows, rhs, cols):
    """(rank, consistent) of rows . y = rhs"""
    if not rows:
        return 0, True
    aug = [list(r) + [b] for r, b in zip(rows, rhs)]
    _, piv = lin.rref(aug)
    return len([p for p in piv if p < cols]), cols not in piv


class Family:
    """vec(S[key]) = x0[key] + sum y_k A_k[key], read off a node through its public S_from_y."""
    def __init__(self, node):
        self.dof = node.dof
        z = self._eval(node, [0] * self.dof)
        self.keys = list(z)
        self.x0 = z
        self.dirs = []
        for k in range(self.dof):
            e = self._eval(node, [int(i == k) for i in range(self.dof)])
            self.dirs.append({key: [[a - b for a, b in zip(r, s)] for r, s in zip(e[key], z[key])] for key in self.keys})

    @staticmethod
    def _eval(node, y):
        S = node.S_from_y(sp.Matrix(len(y), 1, y))
        return {k: lin.from_sympy(M) for k, M in S.items()}

    def entry(self, key, i, j):
        """(coefficients over y, constant)"""
        return [d[key][i][j] for d in self.dirs], self.x0[key][i][j]

    def at(self, key, y):
        n = len(self.x0[key])
        return [[self.x0[key][i][j] + sum((t * d[key][i][j] for t, d in zip(y, self.dirs)), F(0)) for j in range(n)] for i in range(n)]

    def null_rows(self, N):
        """Rows of S(y) N = 0; N: key -> list of column vectors"""
        out = []
        for key, cols in N.items():
            n = len(self.x0[key])
            for v in cols:
                for i in range(n):
                    row, c = [F(0)] * self.dof, F(0)
                    for j in range(n):
                        if v[j]:
                            r, b = self.entry(key, i, j)
                            row = [x + v[j] * y for x, y in zip(row, r)]
                            c += v[j] * b
                    out.append((row, -c))
        return out

    def equal_rows(self, key, p, q):
        r, b = self.entry(key, *p)
        r2, b2 = self.entry(key, *q)
        return ([x - y for x, y in zip(r, r2)], b2 - b)

    def zero_diagonal_rows(self, recursive=True):
        """Closure: a diagonal entry that is zero on the whole family forces its row to zero."""
        rows, masked = [], {k: set() for k in self.keys}
        while True:
            new = []
            rk, ok = rank_aug([r for r, _ in rows], [b for _, b in rows], self.dof)
            if not ok:
                return rows, masked
            for key in self.keys:
                for i in range(len(self.x0[key])):
                    if i in masked[key]:
                        continue
                    r, c = self.entry(key, i, i)
                    rk2, ok2 = rank_aug([x for x, _ in rows] + [r], [b for _, b in rows] + [-c], self.dof)
                    if ok2 and rk2 == rk:
                        new.append((key, i))
            if not new:
                return rows, masked
            for key, i in new:
                masked[key].add(i)
                n = len(self.x0[key])
                for j in range(n):
                    r, c = self.entry(key, i, j)
                    rows.append((r, -c))
            if not recursive:
                return rows, masked

    def contains(self, S):
        """Is the given dictionary of matrices a member of the family?"""
        rows, rhs = [], []
        for key in self.keys:
            n = len(self.x0[key])
            for i in range(n):
                for j in range(n):
                    r, c = self.entry(key, i, j)
                    rows.append(r)
                    rhs.append(S[key][i][j] - c)
        return rank_aug(rows, rhs, self.dof)[1]


def dimension(rows, dof):
    rk, ok = rank_aug([r for r, _ in rows], [b for _, b in rows], dof)
    return dof - rk if ok else None
