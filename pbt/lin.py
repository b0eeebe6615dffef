"""Reference linear algebra over Fractions (lists of lists), and matrix generators."""
from fractions import Fraction as F

from hypothesis import strategies as st
import sympy as sp


def frac(x):
    if isinstance(x, (list, tuple)):
        return F(x[0], x[1])
    return F(x)


def mat(data):
    return [[frac(x) for x in row] for row in data]


def shape(A, cols=None):
    return len(A), (len(A[0]) if A else (cols or 0))


def mul(A, B, inner_cols):
    """A is r x n, B is n x c; inner_cols = c (needed when n == 0)."""
    return [[sum((a * B[k][j] for k, a in enumerate(row)), F(0)) for j in range(inner_cols)] for row in A]


def transpose(A, cols):
    return [[row[j] for row in A] for j in range(cols)]


def rref(A):
    A = [list(r) for r in A]
    piv, r = [], 0
    cols = len(A[0]) if A else 0
    for c in range(cols):
        p = next((i for i in range(r, len(A)) if A[i][c] != 0), None)
        if p is None:
            continue
        A[r], A[p] = A[p], A[r]
        v = A[r][c]
        A[r] = [x / v for x in A[r]]
        for i in range(len(A)):
            if i != r and A[i][c] != 0:
                k = A[i][c]
                A[i] = [x - k * y for x, y in zip(A[i], A[r])]
        piv.append(c)
        r += 1
        if r == len(A):
            break
    return A, piv


def rank(A):
    return len(rref(A)[1]) if A and A[0] else 0


def det(A):
    A = [list(r) for r in A]
    n, d = len(A), F(1)
    for c in range(n):
        p = next((i for i in range(c, n) if A[i][c] != 0), None)
        if p is None:
            return F(0)
        if p != c:
            A[c], A[p] = A[p], A[c]
            d = -d
        d *= A[c][c]
        for i in range(c + 1, n):
            if A[i][c] != 0:
                k = A[i][c] / A[c][c]
                A[i] = [x - k * y for x, y in zip(A[i], A[c])]
    return d


def is_psd(A):
    """Exact: symmetric elimination with a zero pivot requiring a zero row."""
    A = [list(r) for r in A]
    n = len(A)
    for c in range(n):
        if A[c][c] < 0:
            return False
        if A[c][c] == 0:
            if any(A[c][j] != 0 for j in range(c, n)):
                return False
            continue
        for i in range(c + 1, n):
            if A[i][c] != 0:
                k = A[i][c] / A[c][c]
                A[i] = [x - k * y for x, y in zip(A[i], A[c])]
    return True


def from_sympy(M):
    """Exact entries of a rational sympy matrix."""
    r, c = M.shape
    out = []
    for i in range(r):
        row = []
        for j in range(c):
            x = M[i, j]
            x = sp.sympify(x)
            if not x.is_Rational:
                raise ValueError("entry %s is not rational" % x)
            row.append(F(int(x.p), int(x.q)))
        out.append(row)
    return out


def to_sympy(data, cols, rep="auto"):
    """data: list of rows of ints / [p, q] / Fractions."""
    rows = len(data)
    ent = [[frac(x) for x in r] for r in data]
    M = sp.Matrix(rows, cols, [sp.Rational(x.numerator, x.denominator) for r in ent for x in r])
    if rep == "auto":
        return M
    from sympy.polys.matrices.domainmatrix import DomainMatrix
    dM = M._rep
    if rep == "qq":
        dM = dM.to_field() if dM.domain.is_ZZ else dM
    elif rep == "dense":
        dM = dM.to_dense()
    elif rep == "sparse":
        dM = dM.to_sparse()
    return sp.Matrix._fromrep(dM)


MAGS = [0, 1, 2, 3, 7, 2**15, 2**20 + 7, 2**31 - 1, 2**31, 2**32 + 15, 3037000499, 3037000500, 2**52 + 1, 2**53 + 1, 2**62 - 57,
        2**62, 2**63 - 1, 2**63, 2**63 + 1, 2**64 - 1, 2**64, 10**30 + 57]


def magnitude():
    return st.sampled_from(range(len(MAGS))).flatmap(
        lambda i: st.tuples(st.just(MAGS[i]), st.integers(-2, 2), st.sampled_from([1, -1])).map(lambda t: (t[0] + t[1]) * t[2]))


def entry(kind):
    small = st.integers(-4, 4)
    if kind == "small":
        return st.one_of(st.just(0), small)
    if kind == "rat":
        return st.one_of(small, st.tuples(st.integers(-6, 6), st.integers(1, 5)).map(list))
    if kind == "big":
        return st.one_of(small, magnitude())
    if kind == "bigrat":
        return st.one_of(small, st.tuples(magnitude(), st.sampled_from([1, 1, 2, 3, 2**31, 2**61 + 1])).map(list))
    raise KeyError(kind)


def matrix(r, c, kind):
    return st.lists(st.lists(entry(kind), min_size=c, max_size=c), min_size=r, max_size=r)
