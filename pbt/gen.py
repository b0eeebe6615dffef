"""Strategies producing plain JSON data, and readers turning it into SymPy objects."""
from hypothesis import strategies as st
import sympy as sp


def ints(lo, hi):
    return st.integers(lo, hi)


def rats(num=6, den=4, nonzero=False):
    """Rationals as [p, q]."""
    n = st.integers(-num, num)
    if nonzero:
        n = n.filter(bool)
    return st.tuples(n, st.integers(1, den)).map(list)


def big_rats():
    return st.one_of(rats(), rats(30, 12), st.tuples(st.integers(-10**12, 10**12), st.integers(1, 10**9)).map(list))


def R(x):
    if isinstance(x, int):
        return sp.Integer(x)
    return sp.Rational(x[0], x[1])


def exponents(n, maxdeg):
    return st.lists(st.integers(0, maxdeg), min_size=n, max_size=n).map(lambda l: _clip(l, maxdeg))


def _clip(l, d):
    out, left = [], d
    for x in l:
        x = min(x, left)
        out.append(x)
        left -= x
    return out


def hom_exponents(n, d):
    """Exponent vectors of total degree exactly d, by cut points."""
    return st.lists(st.integers(0, d), min_size=n - 1, max_size=n - 1).map(lambda c: _cuts(sorted(c), d))


def _cuts(c, d):
    c = [0] + c + [d]
    return [c[i + 1] - c[i] for i in range(len(c) - 1)]


def poly(n, maxdeg, maxterms=6, coef=None, min_terms=0):
    """Sparse polynomial as a list of [coef, exponents]."""
    coef = coef if coef is not None else rats()
    return st.lists(st.tuples(coef, exponents(n, maxdeg)).map(list), min_size=min_terms, max_size=maxterms)


def hom_poly(n, d, maxterms=8, coef=None, min_terms=0):
    coef = coef if coef is not None else rats()
    return st.lists(st.tuples(coef, hom_exponents(n, d)).map(list), min_size=min_terms, max_size=maxterms)


def to_expr(terms, syms):
    return sp.Add(*[R(c) * sp.Mul(*[s**k for s, k in zip(syms, e)]) for c, e in terms])


def to_poly(terms, syms, domain=None):
    d = {}
    for c, e in terms:
        e = tuple(e)
        d[e] = d.get(e, 0) + R(c)
    d = {k: v for k, v in d.items() if v != 0} or {(0,) * len(syms): sp.Integer(0)}
    p = sp.Poly.from_dict(d, *syms)
    if domain is not None:
        p = p.set_domain(domain)
    return p


def perm_list(n):
    return st.permutations(list(range(n))).map(list)


def named_group(n):
    """Generators (array forms) of a group on n points, common ones first."""
    rot = list(range(1, n)) + [0]
    ref = [1, 0] + list(range(2, n))
    opts = [st.just([rot]), st.just([rot, ref])] if n > 1 else [st.just([[0]])]
    if n >= 3:
        opts += [st.just([[1, 2, 0] + list(range(3, n))]), st.just([rot, list(range(n))[::-1]]), st.just([ref])]
    if n >= 4:
        opts += [st.just([[1, 0, 3, 2] + list(range(4, n))]), st.just([[2, 3, 0, 1] + list(range(4, n)), ref])]
        even = [list(range(i)) + [i + 1, i + 2, i] + list(range(i + 3, n)) for i in range(n - 2)]
        opts += [st.just(even)]  # alternating
    opts += [perm_list(n).map(lambda p: [p]), st.lists(perm_list(n), min_size=2, max_size=2)]
    return st.one_of(*opts)
