"""Abstract syntax (plain JSON) for expressions with cyclic sums/products, shared by C08-C10.

A tree is one of  ["s", i]  ["n", p, q]  ["+", t...]  ["*", t...]  ["^", t, k]
["cs", t, [symbol indices], [generators]]  ["cp", ...same...]."""
from hypothesis import strategies as st
import sympy as sp
from sympy.combinatorics import Permutation, PermutationGroup

from . import evalx, gen

SYMS = sp.symbols("a b c d x y")
NS = len(SYMS)


def leaf():
    return st.one_of(st.integers(0, NS - 1).map(lambda i: ["s", i]), st.integers(0, 3).map(lambda i: ["s", i]),
                     st.tuples(st.integers(-4, 5), st.integers(1, 3)).map(lambda t: ["n", t[0], t[1]]))


def sym_tuple(nmin=2, nmax=4):
    return st.integers(nmin, nmax).flatmap(lambda n: st.one_of(
        st.just(list(range(n))), st.permutations(list(range(NS))).map(lambda p: list(p[:n]))))


def cyc_node(body, kinds=("cs", "cp"), nmax=4):
    return sym_tuple(2, nmax).flatmap(lambda ss: st.tuples(st.sampled_from(kinds), body, st.just(ss), gen.named_group(len(ss))).map(list))


def plain(max_leaves=7):
    def ext(ch):
        return st.one_of(st.lists(ch, min_size=2, max_size=3).map(lambda l: ["+"] + l),
                         st.lists(ch, min_size=2, max_size=3).map(lambda l: ["*"] + l),
                         st.tuples(ch, st.integers(1, 3)).map(lambda t: ["^", t[0], t[1]]))
    return st.recursive(leaf(), ext, max_leaves=max_leaves)


def tree(max_leaves=6):
    body = plain(max_leaves)
    inner = st.one_of(body, body, cyc_node(body, nmax=3))
    mixed = st.one_of(
        body,
        st.tuples(inner, body).map(lambda t: ["*", t[0], t[1]]),
        st.tuples(inner, body).map(lambda t: ["+", t[0], t[1]]),
        st.tuples(inner, inner).map(lambda t: ["*", t[0], t[1]]))
    def reordered(n):
        # the same group over the same symbols listed in another order, inside
        return st.permutations(list(range(NS))).flatmap(lambda o: st.tuples(
            st.permutations(o[:n]), gen.named_group(n), plain(3), plain(3), st.sampled_from("+*"),
            st.sampled_from(["cs", "cp"]), st.sampled_from(["cs", "cs", "cp"])).map(
                lambda t: [t[5], [t[4], t[3], [t[6], t[2], list(t[0]), t[1]]], list(o[:n]), t[1]]))
    node = cyc_node(mixed)
    one = st.one_of(node, node, node, node, st.integers(3, 4).flatmap(reordered))
    return st.one_of(one, one, st.tuples(one, body).map(lambda t: ["+", t[0], t[1]]),
                     st.tuples(one, one).map(lambda t: ["*", t[0], t[1]]),
                     st.tuples(one, one).map(lambda t: ["+", t[0], t[1]]),
                     st.tuples(one, st.integers(-2, 3).filter(lambda k: k not in (0, 1))).map(lambda t: ["^", t[0], t[1]]))


def build(t, CS, CP):
    k = t[0]
    if k == "s":
        return SYMS[t[1]]
    if k == "n":
        return sp.Rational(t[1], t[2])
    if k == "+":
        return sp.Add(*[build(x, CS, CP) for x in t[1:]])
    if k == "*":
        return sp.Mul(*[build(x, CS, CP) for x in t[1:]])
    if k == "^":
        return sp.Pow(build(t[1], CS, CP), t[2])
    cls = CS if k == "cs" else CP
    return cls(build(t[1], CS, CP), tuple(SYMS[i] for i in t[2]), PermutationGroup(*[Permutation(g) for g in t[3]]))


_cache = {}


def elements(gens):
    k = tuple(map(tuple, gens))
    if k not in _cache:
        _cache[k] = evalx.close_group(k)
    return _cache[k]


def value(t, env, F=evalx.Mod):
    """env: list of field elements per symbol index."""
    k = t[0]
    if k == "s":
        return env[t[1]]
    if k == "n":
        return F.rat(t[1], t[2])
    if k == "+":
        r = F.rat(0, 1)
        for x in t[1:]:
            r = F.add(r, value(x, env, F))
        return r
    if k == "*":
        r = F.rat(1, 1)
        for x in t[1:]:
            r = F.mul(r, value(x, env, F))
        return r
    if k == "^":
        return F.powi(value(t[1], env, F), t[2])
    r = F.rat(0 if k == "cs" else 1, 1)
    for g in elements(t[3]):
        e2 = list(env)
        for i, s in enumerate(t[2]):
            e2[s] = env[t[2][g[i]]]
        v = value(t[1], e2, F)
        r = F.add(r, v) if k == "cs" else F.mul(r, v)
    return r


def kinds(t, out=None):
    out = set() if out is None else out
    out.add(t[0])
    if t[0] in ("+", "*"):
        for x in t[1:]:
            kinds(x, out)
    elif t[0] in ("^", "cs", "cp"):
        kinds(t[1], out)
    return out


def cyc_depth(t):
    if t[0] in ("s", "n"):
        return 0
    if t[0] in ("+", "*"):
        return max(cyc_depth(x) for x in t[1:])
    return cyc_depth(t[1]) + (t[0] in ("cs", "cp"))


def group_order(t):
    if t[0] in ("s", "n"):
        return 1
    if t[0] in ("+", "*"):
        return max(group_order(x) for x in t[1:])
    return group_order(t[1]) * (len(elements(t[3])) if t[0] in ("cs", "cp") else 1)
