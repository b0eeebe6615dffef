"""Independent evaluation of SymPy trees (including cyclic sums and products) at points.

Nothing here calls the code under test: a cyclic sum is evaluated from its
definition, by closing the generators of its group and summing the body over the
permuted environments.  Two coefficient domains are provided: exact fractions, and a large
prime field in which polynomial identities are tested at random points
(Schwartz-Zippel; a difference is always real, never a rounding artefact)."""
from fractions import Fraction

import mpmath
import sympy as sp

P = (1 << 61) - 1


class Unsupported(Exception):
    pass


class DivZero(Exception):
    pass


def close_group(gens):
    """All elements (as tuples) generated by permutations in array form."""
    gens = [tuple(g) for g in gens]
    n = max(map(len, gens))
    gens = [g + tuple(range(len(g), n)) for g in gens]
    e = tuple(range(n))
    seen, todo = {e}, [e]
    while todo:
        x = todo.pop()
        for g in gens:
            y = tuple(g[i] for i in x)
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return sorted(seen)


class Mod:
    @staticmethod
    def rat(p, q):
        if q % P == 0:
            raise DivZero()
        return p % P * pow(q, -1, P) % P

    @staticmethod
    def add(a, b):
        return (a + b) % P

    @staticmethod
    def mul(a, b):
        return a * b % P

    @staticmethod
    def powi(a, k):
        if k < 0:
            if a % P == 0:
                raise DivZero()
            return pow(pow(a, -1, P), -k, P)
        return pow(a, k, P)

    @staticmethod
    def root(a, p, q):
        raise Unsupported("root")

    @staticmethod
    def special(e):
        raise Unsupported(type(e).__name__)


class Rat:
    @staticmethod
    def rat(p, q):
        return Fraction(p, q)

    @staticmethod
    def add(a, b):
        return a + b

    @staticmethod
    def mul(a, b):
        return a * b

    @staticmethod
    def powi(a, k):
        if k < 0 and a == 0:
            raise DivZero()
        return a ** k

    root = Mod.root
    special = Mod.special


class MP:
    """High precision real numbers (for certificates with radicals)."""
    @staticmethod
    def rat(p, q):
        return mpmath.mpf(p) / q

    @staticmethod
    def add(a, b):
        return a + b

    @staticmethod
    def mul(a, b):
        return a * b

    @staticmethod
    def powi(a, k):
        if k < 0 and a == 0:
            raise DivZero()
        return a ** k

    @staticmethod
    def root(a, p, q):
        if isinstance(a, mpmath.mpc) or a < 0:
            return mpmath.power(mpmath.mpc(a), mpmath.mpf(p) / q)
        return mpmath.power(a, mpmath.mpf(p) / q)

    @staticmethod
    def special(e):
        v = sp.N(e, mpmath.mp.dps + 10)
        if v.is_Float:
            return mpmath.mpf(v._mpf_)
        re, im = v.as_real_imag()
        if not (re.is_Number and im.is_Number):
            raise Unsupported(str(e)[:80])
        return mpmath.mpc(mpmath.mpf(sp.Float(re)._mpf_), mpmath.mpf(sp.Float(im)._mpf_))


def group_of(perm):
    return close_group([list(g.array_form) for g in perm.generators])


_groups = {}


def _elements(perm):
    k = tuple(tuple(g.array_form) for g in perm.generators)
    if k not in _groups:
        _groups[k] = close_group(k)
    return _groups[k]


def evaluate(e, env, F=Mod, funcs=None, memo=None):
    """Value of the SymPy expression `e`; `env` maps symbols to field elements;
    `funcs` maps names of undefined functions to Python functions of field elements."""
    if memo is None:
        memo = {}
    if isinstance(e, sp.Poly):
        r = F.rat(0, 1)
        vals = [env[g] for g in e.gens]
        for m, c in e.terms():
            t = evaluate(c, env, F, funcs, memo)
            for v, k in zip(vals, m):
                if k:
                    t = F.mul(t, F.powi(v, k))
            r = F.add(r, t)
        return r
    if e in memo:
        return memo[e]
    if isinstance(e, sp.Symbol):
        if e not in env:
            raise Unsupported("free symbol %s" % e)
        r = env[e]
    elif isinstance(e, sp.Rational):
        r = F.rat(int(e.p), int(e.q))
    elif isinstance(e, sp.Float):
        q = sp.Rational(str(e)) if False else sp.Rational(e)
        r = F.rat(int(q.p), int(q.q))
    elif isinstance(e, sp.Add):
        r = F.rat(0, 1)
        for x in e.args:
            r = F.add(r, evaluate(x, env, F, funcs, memo))
    elif isinstance(e, sp.Mul):
        r = F.rat(1, 1)
        for x in e.args:
            r = F.mul(r, evaluate(x, env, F, funcs, memo))
    elif isinstance(e, sp.Pow):
        k = e.exp
        b = evaluate(e.base, env, F, funcs, memo)
        if isinstance(k, sp.Integer):
            r = F.powi(b, int(k))
        elif isinstance(k, sp.Rational):
            r = F.root(b, int(k.p), int(k.q))
        else:
            raise Unsupported("exponent %s" % k)
    elif type(e).__name__ in ("CyclicSum", "CyclicProduct") and len(e.args) == 3:
        body, syms, perm = e.args
        syms = list(syms)
        vals = [env[s] for s in syms]
        is_sum = type(e).__name__ == "CyclicSum"
        r = F.rat(0 if is_sum else 1, 1)
        for g in _elements(perm):
            env2 = dict(env)
            for i, s in enumerate(syms):
                env2[s] = vals[g[i]]
            v = evaluate(body, env2, F, funcs, {})
            r = F.add(r, v) if is_sum else F.mul(r, v)
    elif e is sp.I or isinstance(e, (sp.NumberSymbol, sp.polys.rootoftools.ComplexRootOf, sp.AlgebraicNumber)):
        r = F.special(e)
    elif isinstance(e, sp.core.function.AppliedUndef) and funcs is not None:
        f = funcs.get(e.func.__name__)
        if f is None:
            raise Unsupported("function " + e.func.__name__)
        r = f(*[evaluate(x, env, F, funcs, memo) for x in e.args])
    elif not e.free_symbols and not e.has(sp.nan, sp.zoo, sp.oo, -sp.oo):
        r = F.special(e)
    else:
        raise Unsupported(type(e).__name__)
    memo[e] = r
    return r


def prime_points(symbols, count, salt=0):
    """Deterministic pseudo-random points of the prime field."""
    pts = []
    x = 88172645463325252 ^ (salt * 0x9E3779B97F4A7C15 & (1 << 64) - 1)
    for _ in range(count):
        d = {}
        for s in symbols:
            x ^= (x << 13) & (1 << 64) - 1
            x ^= x >> 7
            x ^= (x << 17) & (1 << 64) - 1
            d[s] = x % P
        pts.append(d)
    return pts


def differs(e1, e2, symbols, funcs=None, count=2):
    """None if the two expressions agree as functions; otherwise a description of a point
    where they differ.  Radicals are handled by high precision evaluation."""
    symbols = list(symbols)
    try:
        tried = 0
        for env in prime_points(symbols, count + 4):
            try:
                a, b = evaluate(e1, env, Mod, funcs), evaluate(e2, env, Mod, funcs)
            except DivZero:
                continue
            tried += 1
            if a != b:
                return "values %d and %d at %s modulo %d" % (a, b, env, P)
            if tried == count:
                return None
        if tried:
            return None
        return "undefined (0 denominator) at every point"
    except Unsupported:
        pass
    with mpmath.workdps(120):
        tried = 0
        for j in range(8):
            env = {s: mpmath.mpf(3 + 7 * j + 2 * i * i + i) / (11 + 5 * ((i * j + i + j) % 7)) for i, s in enumerate(symbols)}
            mf = None
            if funcs is not None:
                mf = funcs if not callable(funcs) else funcs
            try:
                a, b = evaluate(e1, env, MP, mf), evaluate(e2, env, MP, mf)
            except (DivZero, ZeroDivisionError):
                continue
            tried += 1
            if not mpmath.isfinite(a) or not mpmath.isfinite(b) or abs(a - b) > mpmath.mpf(10) ** -50 * (1 + abs(a) + abs(b)):
                return "values %s and %s at %s" % (mpmath.nstr(a, 20), mpmath.nstr(b, 20), {str(k): mpmath.nstr(v, 12) for k, v in env.items()})
            if tried == 2:
                return None
    if tried:
        return None
    return "undefined at every point"
