"""Polynomial inequalities as plain data: families, mutations and builders.

Polynomials are dicts {exponent tuple: SymPy number}; everything here is independent of
the code under test, so an expected value computed here is an oracle."""
import functools
import itertools
import json
import os

import sympy as sp
from hypothesis import strategies as st

from . import evalx, gen
from .env import ROOT


# ---------------------------------------------------------------- dict polynomials
def pconst(c, n):
    return {(0,) * n: sp.sympify(c)} if c else {}


def pvar(i, n):
    return {tuple(int(j == i) for j in range(n)): sp.Integer(1)}


def padd(*ps):
    d = {}
    for p in ps:
        for e, c in p.items():
            d[e] = d.get(e, 0) + c
    return {e: c for e, c in d.items() if c != 0}


def pscale(p, k):
    return {e: sp.expand(c * k) if not (c.is_Rational and sp.sympify(k).is_Rational) else c * k for e, c in p.items()} if k else {}


def pmul(p, q):
    d = {}
    for e, c in p.items():
        for f, k in q.items():
            g = tuple(map(int.__add__, e, f))
            v = c * k
            d[g] = d.get(g, 0) + (v if v.is_Rational else sp.expand(v))
    return {e: c for e, c in d.items() if c != 0}


def ppow(p, k, n):
    r = pconst(1, n)
    for _ in range(k):
        r = pmul(r, p)
    return r


def pact(p, g):
    """Rename variable i to variable g[i]."""
    out = {}
    for e, c in p.items():
        f = [0] * len(e)
        for i, k in enumerate(e):
            f[g[i]] += k
        f = tuple(f)
        out[f] = out.get(f, 0) + c
    return {e: c for e, c in out.items() if c != 0}


def pcyc(p, els):
    return padd(*[pact(p, g) for g in els]) if p else {}


def pdeg(p):
    return max((sum(e) for e in p), default=0)


def ishom(p):
    return len({sum(e) for e in p}) <= 1


def peval(p, xs):
    """Exact value at a list of SymPy numbers."""
    r = sp.Integer(0)
    for e, c in p.items():
        t = c
        for x, k in zip(xs, e):
            if k:
                t = t * x**k
        r += t
    return r


def psubs(p, polys, n):
    """Compose with a list of polynomials in n variables."""
    r = {}
    cache = {}
    for e, c in p.items():
        t = {(0,) * n: c}
        for i, k in enumerate(e):
            if k:
                if (i, k) not in cache:
                    cache[i, k] = ppow(polys[i], k, n)
                t = pmul(t, cache[i, k])
        r = padd(r, t)
    return r


def cyc_els(n):
    return [tuple((i + k) % n for i in range(n)) for k in range(n)]


def sym_els(n):
    return list(itertools.permutations(range(n)))


def to_poly(p, syms):
    d = {e: c for e, c in p.items() if c != 0} or {(0,) * len(syms): sp.Integer(0)}
    return sp.Poly.from_dict(d, *syms)


def to_expr(p, syms):
    return sp.Add(*[c * sp.Mul(*[s**k for s, k in zip(syms, e)]) for e, c in p.items()])


def from_terms(terms):
    return padd(*[{tuple(e): gen.R(c) if not isinstance(c, str) else sp.sympify(c)} for c, e in terms]) if terms else {}


# ---------------------------------------------------------------- corpus
@functools.lru_cache(None)
def corpus():
    out = []
    for it in json.load(open(os.path.join(ROOT, "corpus", "doc_inequalities.json"))):
        out.append(it)
    return out


@functools.lru_cache(None)
def corpus_poly(i):
    it = corpus()[i]
    order = {"a": 0, "b": 1, "c": 2, "d": 3}
    n = 4 if "d" in it["gens"] else 3
    p = {}
    for c, m in it["terms"]:
        e = [0] * n
        for g, k in zip(it["gens"], m):
            e[order[g]] += k
        p[tuple(e)] = sp.expand(sp.sympify(c))
    return n, p


def n_corpus():
    return len(corpus())


# ---------------------------------------------------------------- building blocks
def _form(n, d, nterms, lo=-4, hi=4):
    """Small homogeneous form as terms."""
    return st.lists(st.tuples(st.integers(lo, hi).filter(bool), gen.hom_exponents(n, d)).map(list),
                    min_size=1, max_size=nterms)


def block(n, d):
    """One summand of degree d in n variables: [coef, kind, data]."""
    coef = st.one_of(st.integers(1, 5), st.tuples(st.integers(1, 12), st.integers(1, 6)).map(list))
    opts = []
    if d % 2 == 0:
        opts.append(_form(n, d // 2, 4).map(lambda q: ["sq", [0] * n, q]))
    for k in range(1, min(d, 4) + 1):
        if (d - k) % 2 == 0 and d - k > 0:
            opts.append(st.tuples(gen.hom_exponents(n, k), _form(n, (d - k) // 2, 4)).map(lambda t: ["sq", t[0], t[1]]))
            opts.append(st.tuples(gen.hom_exponents(n, k), _cform(n, (d - k) // 2)).map(lambda t: ["sq", t[0], t[1]]))
    if d % 2 == 0 and d >= 2:
        opts.append(_cform(n, d // 2).map(lambda q: ["sq", [0] * n, q]))
    opts.append(gen.hom_exponents(n, d).map(lambda e: ["sq", e, [[1, [0] * n]]]))
    if d >= 2:
        opts.append(gen.hom_exponents(n, d - 2).map(lambda e: ["sq", e, [[1, [1] + [0] * (n - 1)], [-1, [0, 1] + [0] * (n - 2)]]]))
    return st.tuples(coef, st.one_of(*opts)).map(lambda t: [t[0]] + t[1])


def _cform(n, d):
    """A form vanishing at (1,...,1): differences of monomials."""
    return st.lists(st.tuples(st.integers(-4, 4).filter(bool), gen.hom_exponents(n, d), gen.hom_exponents(n, d)), min_size=1, max_size=3).map(
        lambda l: [t for c, e, f in l for t in ([c, e], [-c, f])])


def block_poly(b, n):
    c, kind, mono, q = b
    q = from_terms(q)
    return pscale(pmul({tuple(mono): sp.Integer(1)}, pmul(q, q)), gen.R(c))


def named_forms(n, d):
    """Classical vanishing/positive forms, symmetric under all permutations."""
    out = []
    a, b, c = pvar(0, n), pvar(1, n), pvar(2, n)
    if n == 3:
        for k in range(0, max(d - 1, 0)):
            if k + 2 == d:
                m = ppow(a, k, n)
                t = pmul(m, pmul(padd(a, pscale(b, -1)), padd(a, pscale(c, -1))))
                out.append(pcyc(t, cyc_els(3)))
        if d >= 6:
            v = pmul(pmul(padd(a, pscale(b, -1)), padd(b, pscale(c, -1))), padd(c, pscale(a, -1)))
            v2 = pmul(v, v)
            out.append(pmul(v2, pcyc(ppow(a, d - 6, n), cyc_els(3))))
        if d >= 4:
            out.append(pmul(pmul({(1, 1, 1): sp.Integer(1)}, pcyc(ppow(a, 1, n), cyc_els(3))), pcyc(ppow(a, d - 4, n), cyc_els(3))))
    return out


def group_elements(name, n):
    if name == "cyc":
        return cyc_els(n)
    if name == "sym":
        return sym_els(n)
    if name == "part":           # permutations fixing the last variable
        return [g + (n - 1,) for g in sym_els(n - 1)]
    return [tuple(range(n))]


def family(n, d, group, max_blocks=3):
    """A form of degree d, invariant under the named group: nonnegative blocks plus random monomials, optionally
    shifted to vanish at (1,...,1)."""
    mono = st.tuples(st.one_of(st.integers(-6, 6), gen.rats(8, 3)), gen.hom_exponents(n, d)).map(list)
    return st.fixed_dictionaries({
        "n": st.just(n), "d": st.just(d), "g": st.just(group),
        "blocks": st.lists(block(n, d), min_size=0, max_size=max_blocks),
        "monos": st.lists(mono, min_size=0, max_size=2),
        "center": st.sampled_from([0, 0, 1, 1, 2]),
        "named": st.lists(st.tuples(st.integers(0, 2), gen.rats(6, 3)).map(list), max_size=1)})


def family_poly(f):
    n, d = f["n"], f["d"]
    els = group_elements(f["g"], n)
    p = padd(*[pcyc(block_poly(b, n), els) for b in f["blocks"]]) if f["blocks"] else {}
    for c, e in f["monos"]:
        p = padd(p, pcyc({tuple(e): gen.R(c)} if gen.R(c) else {}, els))
    if f["named"] and n == 3:
        nf = named_forms(n, d)
        for i, c in f["named"]:
            if nf and gen.R(c):
                p = padd(p, pscale(nf[i % len(nf)], gen.R(c)))
    if f["center"]:
        v = sum(p.values(), sp.Integer(0))
        base, k = [0] * n, d
        if f["center"] == 1:
            i = 0
            while k:
                base[i % n] += 1
                i += 1
                k -= 1
        else:
            base[0] = d
        b = pcyc({tuple(base): sp.Integer(1)}, els)
        s = sum(b.values(), sp.Integer(0))
        if v:
            p = padd(p, pscale(b, -v / s))
    return p


# ---------------------------------------------------------------- mutations of a polynomial
MUT = ["scale", "perm", "addsq", "addmono", "mulmono", "mulsum", "pow2", "addcyc", "nudge", "square", "zero", "shift"]


def mutation():
    def one(k):
        if k == "scale":
            return st.tuples(st.just(k), st.one_of(st.sampled_from([[2, 1], [1, 3], [7, 5], [1000003, 7], [1, 10**9]]), gen.rats(9, 9))).map(list)
        if k == "perm":
            return st.tuples(st.just(k), st.permutations([0, 1, 2, 3]).map(list)).map(list)
        if k in ("addsq", "addcyc", "addmono"):
            return st.tuples(st.just(k), st.integers(0, 10**6), gen.rats(6, 4)).map(list)
        if k in ("mulmono", "zero"):
            return st.tuples(st.just(k), st.integers(0, 3)).map(list)
        if k == "shift":
            return st.tuples(st.just(k), gen.rats(3, 2)).map(list)
        if k == "nudge":
            return st.tuples(st.just(k), st.integers(0, 50), st.sampled_from([[1, 1], [-1, 1], [1, 100], [-1, 100], [1, 7], [-1, 7]])).map(list)
        return st.just([k])
    return st.sampled_from(MUT).flatmap(one)


def _monos_of_degree(n, d):
    return [e for e in itertools.product(range(d + 1), repeat=n) if sum(e) == d]


def mutate(n, p, muts, max_degree=9):
    for m in muts:
        k = m[0]
        d = pdeg(p)
        if not p:
            return p
        if k == "scale" and gen.R(m[1]) > 0:
            p = pscale(p, gen.R(m[1]))
        elif k == "perm":
            g = [x for x in m[1] if x < n]
            p = pact(p, g)
        elif k in ("addsq", "addcyc", "addmono") and ishom(p):
            ms = _monos_of_degree(n, d)
            e = ms[m[1] % len(ms)]
            q = {e: sp.Integer(1)}
            if k != "addmono":
                f = ms[(m[1] // len(ms)) % len(ms)]
                q = padd(q, {f: sp.Integer(-1)})
            if k == "addsq":
                # s(ei*(..)) kept homogeneous: square of a difference of half-degree monomials
                h = _monos_of_degree(n, d // 2)
                u, v = h[m[1] % len(h)], h[(m[1] // len(h)) % len(h)]
                q = padd({u: sp.Integer(1)}, {v: sp.Integer(-1)})
                q = pmul(q, q)
                if d % 2:
                    q = pmul(q, pvar(m[1] % n, n))
            q = pcyc(q, cyc_els(n)) if q else {}
            if q and gen.R(m[2]):
                p = padd(p, pscale(q, gen.R(m[2])))
        elif k == "mulmono" and d + n <= max_degree:
            p = pmul(p, {(1,) * n: sp.Integer(1)}) if m[1] else pmul(p, pvar(0, n))
        elif k == "mulsum" and d + 1 <= max_degree:
            p = pmul(p, padd(*[pvar(i, n) for i in range(n)]))
        elif k == "pow2" and 2 * d <= max_degree:
            p = {tuple(2 * x for x in e): c for e, c in p.items()}
        elif k == "square" and 2 * d <= max_degree:
            p = pmul(p, p)
        elif k == "zero":
            i = m[1] % n
            p = {e: c for e, c in p.items() if e[i] == 0}
        elif k == "shift" and d <= 4 and gen.R(m[1]) and len(p) < 20:
            # a linear change of variables a -> a + k b
            polys = [pvar(i, n) for i in range(n)]
            polys[0] = padd(polys[0], pscale(pvar(1, n), gen.R(m[1])))
            p = psubs(p, polys, n)
        elif k == "nudge":
            es = sorted(p)
            e = es[m[1] % len(es)]
            orbit = {tuple(e[(i + j) % n] for i in range(n)) for j in range(n)}
            p = padd(p, {f: gen.R(m[2]) for f in orbit})
    return p


NAMES = [["a", "b", "c", "d"], ["x", "y", "z", "w"], ["b", "c", "a", "d"], ["c", "b", "a", "d"], ["a", "c", "d", "b"],
         ["t", "G", "a1", "_G"], ["x1", "x2", "x3", "x4"], ["u", "a", "b", "c"], ["p", "q", "r", "s"], ["A", "B", "C", "D"]]


# ---------------------------------------------------------------- visible nonnegativity of certificates
def _positive_number(e):
    try:
        return bool(e >= 0)
    except TypeError:
        v = sp.N(e, 30)
        return bool(v.is_real and v >= 0)


def _norm_sign(e):
    """(sign, primitive part) with the rational content removed."""
    c, m = e.as_content_primitive() if e.is_Add else e.as_coeff_Mul()
    if m.is_Add and m.could_extract_minus_sign():
        c, m = -c, -m
    return (1 if c >= 0 else -1), m


def visible(e, nonneg, memo=None, zero=()):
    """True if the expression is nonnegative by shape: nonnegative numbers, even powers, members of
    `nonneg` (constraints or their names), products, quotients and sums of such; members of `zero`
    (and products with them) count as zero."""
    known = {}
    for x in nonneg:
        s, m = _norm_sign(sp.sympify(x))
        known.setdefault(m, set()).add(s)
    for x in zero:
        s, m = _norm_sign(sp.sympify(x))
        known[m] = {1, -1}
    return 1 in _signs(e, known, {} if memo is None else memo)


BOTH = frozenset([1, -1])
NONE = frozenset()


def _signs(e, known, memo):
    if e in memo:
        return memo[e]
    r = NONE
    if not e.free_symbols and not e.atoms(sp.core.function.AppliedUndef):
        r = BOTH if e.is_zero else frozenset([1 if _positive_number(e) else -1])
    else:
        s, m = _norm_sign(e)
        if m in known:
            r = frozenset(s * t for t in known[m])
        elif isinstance(e, sp.Add):
            r = frozenset.intersection(*[_signs(x, known, memo) for x in e.args])
        elif isinstance(e, sp.Mul):
            ss = [_signs(x, known, memo) for x in e.args]
            if any(x == BOTH for x in ss):
                r = BOTH
            elif all(ss):
                t = 1
                for x in ss:
                    t *= next(iter(x))
                r = frozenset([t])
        elif isinstance(e, sp.Pow):
            b = _signs(e.base, known, memo)
            if isinstance(e.exp, sp.Integer):
                if b == BOTH and e.exp > 0:
                    r = BOTH
                elif e.exp % 2 == 0:
                    r = frozenset([1])
                else:
                    r = b
            elif isinstance(e.exp, sp.Rational):
                if e.exp.q % 2 == 1 and e.exp.p % 2 == 0:
                    r = frozenset([1])
                elif 1 in b:
                    r = b if b == BOTH and e.exp > 0 else frozenset([1])
        elif type(e).__name__ in ("CyclicSum", "CyclicProduct") and len(e.args) == 3:
            body, syms, perm = e.args
            syms = list(syms)
            parts = [_signs(body.xreplace({syms[i]: syms[g[i]] for i in range(len(syms))}), known, memo)
                     for g in evalx._elements(perm)]
            if type(e).__name__ == "CyclicSum":
                r = frozenset.intersection(*parts)
            elif all(1 in x for x in parts):
                r = BOTH if BOTH in parts else frozenset([1])
    memo[e] = r
    return r


def leaves(e):
    """Additive leaves with the denominator they are divided by left inside."""
    out = []

    def walk(x, f):
        if isinstance(x, sp.Add):
            for y in x.args:
                walk(y, f)
        elif isinstance(x, sp.Mul) and any(isinstance(y, sp.Add) for y in x.args):
            adds = [y for y in x.args if isinstance(y, sp.Add)]
            rest = [y for y in x.args if not isinstance(y, sp.Add)]
            if len(adds) == 1:
                for y in adds[0].args:
                    walk(y, f + rest)
            else:
                out.append(sp.Mul(*f, x))
        else:
            out.append(sp.Mul(*f, x))
    walk(e, [])
    return out
