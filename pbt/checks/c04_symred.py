"""C04: symmetry-reduction changes of variables are lossless."""
from fractions import Fraction as F
import itertools

from hypothesis import strategies as st
import sympy as sp

from .. import cert, evalx, gen, ineq
from ..core import Check

CHECK = Check("C04", rule="random symmetric, cyclic and asymmetric polynomials in two to five variables, expanded from elementary symmetric or "
              "transformed coordinates, under arbitrary variable names and output symbols. The new variables are computed from their written "
              "definitions at points of a prime field (or at exact rational points for signs). Non-trivial: the polynomial is not constant "
              "and the transformation answered.")

NAMES = [["a", "b", "c", "d", "e"], ["z", "y", "x", "w", "v"], ["x1", "x0", "x2", "p", "q"], ["p", "q", "r", "s", "t"], ["c", "a", "b", "e", "d"]]
OUT = [["x", "y", "z", "w", "v"], ["p", "q", "r", "s", "t"], ["z", "x", "y", "u", "w"], ["X", "_1", "c0", "s", "k"], ["r", "p", "q", "t", "s"]]


def in_syms(i, n):
    return [sp.Symbol(s) for s in NAMES[i % len(NAMES)][:n]]


def out_syms(i, n, avoid=()):
    if i == 9:
        return [sp.Dummy("s") for _ in range(n)]
    got = [sp.Symbol(s) for s in OUT[i % len(OUT)][:n]]
    return [sp.Symbol(s.name + "_") if s in avoid else s for s in got]


def elementary(n):
    """Elementary symmetric polynomials in n variables as dictionaries."""
    out = []
    for k in range(1, n + 1):
        out.append({tuple(1 if i in c else 0 for i in range(n)): sp.Integer(1) for c in itertools.combinations(range(n), k)})
    return out


def from_coords(terms, polys, n):
    """sum of coefficient * product of powers of the given polynomials"""
    total = {}
    for c, e in terms:
        t = {(0,) * n: gen.R(c)}
        for p, k in zip(polys, e):
            for _ in range(k):
                t = ineq.pmul(t, p)
        total = ineq.padd(total, t)
    return {m: c for m, c in total.items() if c}


def weighted(weights, d):
    """All exponent vectors of weighted degree d."""
    if len(weights) == 1:
        return [(d // weights[0],)] if d % weights[0] == 0 else []
    return [(k,) + r for k in range(d // weights[0] + 1) for r in weighted(weights[1:], d - k * weights[0])]


def vander(n):
    a = [ineq.pvar(i, n) for i in range(n)]
    v = ineq.pconst(sp.Integer(1), n)
    for i, j in ((0, 1), (1, 2), (2, 0)):
        v = ineq.pmul(v, ineq.padd(a[i], ineq.pscale(a[j], sp.Integer(-1))))
    return v


def elem_values(vals, Fd):
    """elementary symmetric functions of field elements"""
    e = [Fd.rat(1, 1)] + [Fd.rat(0, 1)] * len(vals)
    for v in vals:
        for k in range(len(vals), 0, -1):
            e[k] = Fd.add(e[k], Fd.mul(v, e[k - 1]))
    return e[1:]


def pick(weights, d, terms):
    """Terms of weighted degree d selected by indices."""
    ms = weighted(weights, d)
    return [(c, ms[i % len(ms)]) for c, i in terms] if ms else []


# ---------------------------------------------------------------- elementary symmetric coordinates
def _pqr_case():
    return st.integers(2, 5).flatmap(lambda n: st.fixed_dictionaries({
        "n": st.just(n), "terms": st.lists(st.tuples(gen.big_rats(), st.lists(st.integers(0, {2: 4, 3: 3, 4: 2, 5: 1}[n]), min_size=n, max_size=n)).map(list), max_size=4),
        "spoil": st.sampled_from([None, None, None, "one", "cyclic", "pair"]), "i": st.integers(0, 4), "o": st.sampled_from([0, 1, 2, 3, 4, 9]), "order": st.permutations(list(range(n))).map(list),
        "default": st.booleans()}))


@CHECK.sub("pqr", _pqr_case, quick=500, thorough=20000, shards=4,
           rule="symmetric polynomials expanded from elementary symmetric functions are expressed in them again; asymmetric ones are refused")
def pqr(case, ctx):
    from triples.utils import pqr_sym
    n = case["n"]
    syms = in_syms(case["i"], n)
    p = from_coords(case["terms"], elementary(n), n)
    if case["spoil"]:
        d = 3
        x = {"one": {(1,) + (0,) * (n - 1): sp.Integer(1)},
             "cyclic": ineq.pcyc({(2, 1) + (0,) * (n - 2): sp.Integer(1)}, ineq.cyc_els(n)),
             "pair": {(d,) + (0,) * (n - 1): sp.Integer(1), (0,) * (n - 1) + (d,): sp.Integer(-1)}}[case["spoil"]]
        p = {m: c for m, c in ineq.padd(p, x).items() if c}
    symmetric = all({tuple(m[i] for i in g): c for m, c in p.items()} == p for g in ineq.sym_els(n))
    # the generators of the polynomial may come in any order
    gens = [syms[i] for i in case["order"]]
    poly = sp.Poly(ineq.to_expr(p, syms), *gens)
    outs = out_syms(case["o"], n)
    kw = (poly,) if case["default"] and n == 3 else (poly, outs)
    if len(kw) == 1:
        outs = list(sp.symbols("p q r"))
    ctx.label("n:%d" % n, "symmetric" if symmetric else "asymmetric", "overlapping symbols" if set(outs) & set(syms) else "new symbols")
    if len(p) > 1:
        ctx.nontrivial()
    try:
        f = pqr_sym(*kw)
    except ValueError:
        ctx.require(not symmetric, lambda: "the symmetric polynomial %s is refused" % poly, "pqr:refused")
        return
    ctx.require(symmetric, lambda: "the asymmetric polynomial %s is expressed as %s" % (poly, f), "pqr:asymmetric")
    f = sp.sympify(f)
    ctx.require(f.free_symbols <= set(outs), lambda: "%s expressed as %s" % (poly, f), "pqr:symbols")
    for env in evalx.prime_points(syms, 2):
        e = dict(zip(outs, elem_values([env[s] for s in syms], evalx.Mod)))
        a, b = evalx.evaluate(f, e), evalx.evaluate(poly.as_expr(), env)
        ctx.require(a == b, lambda: "%s expressed as %s" % (poly, f), "pqr:value")


def _cyc_case():
    t = st.lists(st.tuples(gen.big_rats(), st.lists(st.integers(0, 3), min_size=3, max_size=3)).map(list), max_size=3)
    mono = st.lists(st.tuples(gen.rats(), st.lists(st.integers(0, 4), min_size=3, max_size=3)).map(list), max_size=3)
    return st.fixed_dictionaries({"f": t, "g": t, "m": mono, "spoil": st.sampled_from([False, False, False, True]), "i": st.integers(0, 4),
                                  "o": st.sampled_from([0, 1, 2, 3, 4, 9]), "default": st.booleans(), "order": st.permutations([0, 1, 2]).map(list)})


@CHECK.sub("cyclic", _cyc_case, quick=500, thorough=20000, shards=4,
           rule="cyclic polynomials in three variables are split into symmetric and alternating parts which reproduce them; others are refused")
def cyclic(case, ctx):
    from triples.utils import pqr_cyc, pqr_ker
    syms = in_syms(case["i"], 3)
    p = ineq.padd(from_coords(case["f"], elementary(3), 3), ineq.pmul(vander(3), from_coords(case["g"], elementary(3), 3)))
    for c, m in case["m"]:
        p = ineq.padd(p, ineq.pcyc({tuple(m): gen.R(c)}, ineq.cyc_els(3)))
    if case["spoil"]:
        p = ineq.padd(p, {(2, 1, 0): sp.Integer(1)})
    p = {m: c for m, c in p.items() if c}
    is_cyclic = all({tuple(m[i] for i in g): c for m, c in p.items()} == p for g in ineq.cyc_els(3))
    gens = [syms[i] for i in case["order"]]
    poly = sp.Poly(ineq.to_expr(p, syms), *gens)
    outs = list(sp.symbols("p q r")) if case["default"] else out_syms(case["o"], 3)
    try:
        f, g = pqr_cyc(poly) if case["default"] else pqr_cyc(poly, outs)
    except ValueError:
        ctx.require(not is_cyclic, lambda: "the cyclic polynomial %s is refused" % poly, "pqr:refused")
        return
    if len(p) > 1:
        ctx.nontrivial()
    f, g = sp.sympify(f), sp.sympify(g)
    ctx.label("cyclic" if is_cyclic else "not cyclic", "with an alternating part" if g != 0 else "symmetric")
    ctx.require(is_cyclic, lambda: "%s, which is not cyclic, is expressed as %s, %s" % (poly, f, g), "pqr:asymmetric")
    ctx.require((f.free_symbols | g.free_symbols) <= set(outs), lambda: "%s expressed as %s, %s" % (poly, f, g), "pqr:symbols")
    k = pqr_ker() if case["default"] else pqr_ker(outs)
    P = evalx.P
    for env in evalx.prime_points(gens, 2):
        a, b, c = [env[s] for s in gens]
        e = dict(zip(outs, elem_values([a, b, c], evalx.Mod)))
        v = (a - b) * (b - c) * (c - a) % P
        want = evalx.evaluate(poly.as_expr(), env)
        ctx.require((evalx.evaluate(f, e) + v * evalx.evaluate(g, e)) % P == want, lambda: "%s expressed as %s + (a-b)(b-c)(c-a)(%s)" % (poly, f, g), "pqr:value")
        ctx.require(evalx.evaluate(k, e) == v * v % P, lambda: "the kernel %s" % k, "pqr:kernel")


# ---------------------------------------------------------------- the two changes of variables
def sym_sum(fn, vals):
    return sum(fn(*p) for p in itertools.permutations(vals))


def new_values(method, v, inv):
    """The values of the new variables at a point, from their written definitions; `inv` inverts a number."""
    if len(v) == 3:
        a, b, c = v
        disc = (a - b)**2 * (b - c)**2 * (c - a)**2
        if method == "real":
            return [a**3 + b**3 + c**3 - 3 * a * b * c, (2 * a - b - c) * (2 * b - c - a) * (2 * c - a - b) * inv(2), 27 * inv(4) * disc]
        return [a * (a - b) * (a - c) + b * (b - c) * (b - a) + c * (c - a) * (c - b), a * (b - c)**2 + b * (c - a)**2 + c * (a - b)**2,
                disc * (a + b + c)**3 * inv(a * b * c)]
    a, b, c, d = v
    D = ((a - b) * (b - c) * (c - d) * (d - a) * (a - c) * (b - d))**2
    S2 = sym_sum(lambda a, b, c, d: (a - b)**2, v)
    S6 = sym_sum(lambda a, b, c, d: ((a - b) * (b - c) * (c - a))**2, v)
    rr = (a + b - c - d) * (a + c - b - d) * (a + d - b - c)
    y = S6 * inv(6)
    return [6 * (a + b + c + d) * S6 * S2 * inv(144 * rr), y, sym_sum(lambda a, b, c, d: (a - b)**2 * (c - d)**4, v) * inv(2) - y, D * S2**3 * inv(4 * rr**2)]


def mod_inv(x):
    if x % evalx.P == 0:
        raise evalx.DivZero()
    return pow(x, -1, evalx.P)


def frac_inv(x):
    return F(1) / x


def _sym_poly(n, d, big=False):
    return st.fixed_dictionaries({
        "n": st.just(n), "d": st.just(d), "terms": st.one_of(st.lists(st.tuples(gen.big_rats() if big else gen.rats(8, 4, nonzero=True), st.integers(0, 40)).map(list), min_size=1, max_size=5), st.lists(st.tuples(gen.rats(), st.integers(0, 5)).map(list), max_size=1)),
        "shift": st.sampled_from([False, False, True])})


def sym_poly(c, weights=None, polys=None):
    """A symmetric homogeneous polynomial: terms in elementary symmetric functions, or powers of coordinates vanishing at (1,...,1)."""
    n = c["n"]
    els = elementary(n)
    if c["shift"]:
        # coordinates vanishing at the diagonal: p, p^2-2n/(n-1) q, ...
        p1 = els[0]
        a = [ineq.padd(ineq.pvar(i, n), ineq.pscale(p1, sp.Rational(-1, n))) for i in range(n)]
        shifted = [p1]
        for k in range(2, n + 1):
            tot = {}
            for s in itertools.combinations(range(n), k):
                t = ineq.pconst(sp.Integer(1), n)
                for i in s:
                    t = ineq.pmul(t, a[i])
                tot = ineq.padd(tot, t)
            shifted.append(tot)
        els = shifted
    return from_coords(pick(list(range(1, n + 1)), c["d"], c["terms"]), els, n)


def _rep_case():
    return st.one_of(
        st.tuples(st.integers(0, 10).flatmap(lambda d: _sym_poly(3, d)), st.sampled_from(["real", "positive"])),
        st.tuples(st.integers(0, 10).flatmap(lambda d: _sym_poly(3, d)), st.sampled_from(["real", "positive"])),
        st.tuples(st.integers(0, 6).flatmap(lambda d: _sym_poly(4, d)), st.just("real")),
        st.tuples(st.integers(0, 5).flatmap(lambda d: _sym_poly(3, d, True)), st.sampled_from(["real", "positive"]))).flatmap(
        lambda t: st.fixed_dictionaries({"p": st.just(t[0]), "method": st.just(t[1]), "i": st.integers(0, 4), "o": st.sampled_from([0, 1, 2, 3, 4, 9]),
                                         "return_poly": st.booleans(), "order": st.permutations(list(range(t[0]["n"]))).map(list)}))


@CHECK.sub("represent", _rep_case, quick=520, thorough=20000, shards=8,
           rule="symmetric forms are expressed in the new variables; putting the written definitions back gives the form again, times the reported denominator")
def represent(case, ctx):
    represent_case(case, ctx)


def represent_case(case, ctx):
    mod = ctx.helper("triples.core.symsos.representation", "sym_representation")
    n = case["p"]["n"]
    syms = in_syms(case["i"], n)
    outs = out_syms(case["o"], n, syms)
    p = sym_poly(case["p"])
    poly = sp.Poly(ineq.to_expr(p, syms), *[syms[i] for i in case["order"]])
    m = case["method"]
    got = mod(poly, outs, return_poly=case["return_poly"], method=m)
    ctx.label("%s %d" % (m, n), "degree %d" % case["p"]["d"], "polynomial" if case["return_poly"] else "expression", "zero" if not p else "nonzero",
              "vanishing at the diagonal" if case["p"]["shift"] else "general")
    if case["return_poly"]:
        num, den = got
        ctx.require(isinstance(num, sp.Poly) and list(num.gens) == list(outs), lambda: "the numerator for %s is %s" % (poly, num), "represent:poly")
        num, den = num.as_expr(), sp.sympify(den)
    else:
        num, den = sp.sympify(got), sp.Integer(1)
    allowed = set(syms) | set(outs)
    ctx.require((num.free_symbols | den.free_symbols) <= allowed, lambda: "%s represented with %s" % (poly, num / den), "represent:symbols")
    if len(p) > 1:
        ctx.nontrivial()
    tried = 0
    for env in evalx.prime_points(syms, 6, salt=case["p"]["d"]):
        try:
            e = dict(env)
            e.update(zip(outs, [x % evalx.P for x in new_values(m, [env[s] for s in syms], mod_inv)]))
            a, b, c = evalx.evaluate(num, e), evalx.evaluate(den, e), evalx.evaluate(poly.as_expr(), env)
        except evalx.DivZero:
            continue
        tried += 1
        ctx.require(a == b * c % evalx.P, lambda: "%s is represented (%s) as the quotient of %s by %s, which is not the same" % (poly, m, num, den), "represent:value")
        if tried == 2:
            break
    ctx.require(tried, lambda: "%s is represented by the quotient of %s by %s, undefined everywhere" % (poly, num, den), "represent:value")


def _rep_all(tier):
    out = []
    for n, m, dmax in ((3, "real", 9), (3, "positive", 9), (4, "real", 6)):
        for d in range(dmax + 1):
            ms = weighted(list(range(1, n + 1)), d)
            for i in range(len(ms)):
                for sh in (False, True):
                    out.append({"p": {"n": n, "d": d, "terms": [[[1, 1], i]], "shift": sh}, "method": m, "i": 0, "o": 0 if i % 2 else 9, "return_poly": bool((i + d) % 2), "order": list(range(n))})
    if tier == "thorough":
        out += [dict(c, return_poly=not c["return_poly"]) for c in out]
    else:
        out = out[::3]
    return out


@CHECK.sub("monomials", None, enumerated=_rep_all, shards=8,
           rule="every product of elementary symmetric functions, plain or centred at the mean, of degree up to 9 (three variables) and 6 (four)")
def monomials(case, ctx):
    represent_case(case, ctx)


# ---------------------------------------------------------------- inverse and sign of the new variables
def _inv_case():
    return st.one_of(st.tuples(st.just(3), st.sampled_from(["real", "positive"])), st.tuples(st.just(4), st.just("real"))).flatmap(
        lambda t: st.fixed_dictionaries({
            "n": st.just(t[0]), "method": st.just(t[1]), "i": st.integers(0, 4), "o": st.sampled_from([0, 1, 2, 3, 4, 9]),
            "e": st.lists(st.tuples(gen.rats(), st.lists(st.integers(0, 2), min_size=2 * t[0], max_size=2 * t[0])).map(list), min_size=1, max_size=3),
            "den": st.booleans(), "fn": st.booleans()}))


@CHECK.sub("inverse", _inv_case, quick=360, thorough=12000, shards=4,
           rule="expressions in new and old variables are brought back; the value is that of the written definitions")
def inverse(case, ctx):
    inv = ctx.helper("triples.core.symsos.representation", "sym_representation_inv")
    n = case["n"]
    syms = in_syms(case["i"], n)
    outs = out_syms(case["o"], n, syms)
    al = outs + syms
    e = sp.Add(*[gen.R(c) * sp.Mul(*[s**k for s, k in zip(al, m)]) for c, m in case["e"]])
    if case["den"]:
        e = e / (outs[0] + outs[-1]**2 + 1)
    if case["fn"]:
        from triples.utils import CyclicSum
        e = e + outs[1]**2 * CyclicSum((syms[0] - syms[1])**2, tuple(syms))
    got = inv(e, syms, outs, method=case["method"])
    ctx.label("%s %d" % (case["method"], n))
    if e.free_symbols & set(outs):
        ctx.nontrivial()
    ctx.require(got.free_symbols <= set(syms), lambda: "%s brought back as %s" % (e, got), "inverse:symbols")
    tried = 0
    for env in evalx.prime_points(syms, 6):
        try:
            full = dict(env)
            full.update(zip(outs, [x % evalx.P for x in new_values(case["method"], [env[s] for s in syms], mod_inv)]))
            a, b = evalx.evaluate(got, env), evalx.evaluate(e, full)
        except evalx.DivZero:
            continue
        tried += 1
        ctx.require(a == b, lambda: "%s in the variables (%s) of %s is brought back as %s" % (e, case["method"], outs, got), "inverse:value")
        if tried == 2:
            break


def _dir_case():
    x = st.one_of(st.integers(-6, 6), gen.rats(20, 6)).map(lambda v: v if isinstance(v, list) else [v, 1])
    return st.one_of(st.tuples(st.just(3), st.sampled_from(["real", "positive"])), st.tuples(st.just(4), st.just("real"))).flatmap(
        lambda t: st.fixed_dictionaries({"n": st.just(t[0]), "method": st.just(t[1]), "v": st.lists(x, min_size=t[0], max_size=t[0]), "o": st.sampled_from([0, 1, 3, 9]), "i": st.integers(0, 4)}))


def at(e, env):
    return evalx.evaluate(e, env, evalx.Rat)


@CHECK.sub("directions", _dir_case, quick=1200, thorough=40000, shards=4,
           rule="the variables assumed nonnegative after the change are nonnegative, at real points and at nonnegative points, for the written and for the inverse definitions")
def directions(case, ctx):
    tr = ctx.helper("triples.core.symsos.representation", "_get_transform_from_method")(case["method"], case["n"])
    n = case["n"]
    syms = in_syms(case["i"], n)
    outs = out_syms(case["o"], n, syms)
    v = [F(a, b) for a, b in case["v"]]
    if case["method"] == "positive":
        v = [abs(x) for x in v]
    ineqs, eqs = tr.get_default_constraints(outs)
    back = tr.get_inv_dict(syms, outs)
    ctx.require(set(back) == set(outs), lambda: "the inverse has entries for %s" % set(back), "directions:keys")
    try:
        want = dict(zip(outs, new_values(case["method"], v, frac_inv)))
    except ZeroDivisionError:
        ctx.label("pole")
        return
    env = dict(zip(syms, v))
    ctx.nontrivial()
    ctx.label("%s %d" % (case["method"], n), "boundary" if 0 in want.values() else "interior")
    for k, name in ineqs.items():
        x = at(k.as_expr(), want)
        ctx.require(x >= 0, lambda: "%s is assumed nonnegative but is %s at %s" % (k.as_expr(), x, v), "directions:sign")
        ctx.require(at(sp.sympify(name), want) == x, lambda: "the constraint %s is called %s" % (k, name), "directions:name")
    for k, name in eqs.items():
        ctx.require(at(k.as_expr(), want) == 0, lambda: "%s is assumed zero but is not at %s" % (k.as_expr(), v), "directions:sign")
    for k in outs:
        try:
            x = at(back[k], env)
        except (ZeroDivisionError, evalx.DivZero):
            continue
        ctx.require(x == want[k], lambda: "the inverse gives %s = %s at %s, the definition %s" % (k, x, v, want[k]), "directions:value")


# ---------------------------------------------------------------- whole problems
def _trans_case():
    return st.fixed_dictionaries({
        "p": st.integers(2, 6).flatmap(lambda d: _sym_poly(3, d)), "method": st.sampled_from(["real", "positive"]),
        "g": st.lists(st.tuples(st.integers(1, 4).flatmap(lambda d: _sym_poly(3, d)), st.booleans()), max_size=3),
        "h": st.lists(st.tuples(st.integers(1, 4).flatmap(lambda d: _sym_poly(3, d)), st.booleans()), max_size=2),
        "i": st.integers(0, 4), "o": st.sampled_from([0, 1, 3, 9]), "name": st.booleans()})


@CHECK.sub("problem", _trans_case, quick=240, thorough=8000, shards=8,
           rule="a symmetric problem with symmetric and asymmetric constraints is transformed; the objective and each new constraint equal the old ones "
                "times a denominator that the new name accounts for")
def problem(case, ctx):
    tf = ctx.helper("triples.core.symsos.representation", "sym_transform")
    syms = in_syms(case["i"], 3)
    outs = out_syms(case["o"], 3, syms)
    f = sp.Poly(ineq.to_expr(sym_poly(case["p"]), syms), *syms)
    if f.total_degree() <= 0:
        ctx.skip("constant")
    cons, val = [{}, {}], {}
    for j, key in ((0, "g"), (1, "h")):
        for i, (c, spoil) in enumerate(case[key]):
            q = sym_poly(c)
            if spoil:
                q = ineq.padd(q, {(c["d"], 0, 0): sp.Integer(1)})
            poly = sp.Poly(ineq.to_expr({m: x for m, x in q.items() if x}, syms), *syms)
            if poly.is_zero:
                continue
            nm = sp.Symbol("%s%d" % (key, i)) if case["name"] else sp.Function(key)(sp.Integer(i), *syms)
            cons[j][poly] = nm
            val[nm] = poly
    num, g2, h2, den = tf(f, dict(cons[0]), dict(cons[1]), outs, method=case["method"])
    ctx.label(case["method"], "constraints:%d" % (len(cons[0]) + len(cons[1])))
    ctx.nontrivial()
    for env in evalx.prime_points(syms, 2):
        try:
            nv = [x % evalx.P for x in new_values(case["method"], [env[s] for s in syms], mod_inv)]
        except evalx.DivZero:
            continue
        full = dict(env)
        full.update(zip(outs, nv))

        def ev(e):
            return evalx.evaluate(sp.sympify(e).xreplace({k: v.as_expr() for k, v in val.items()}), full)
        ctx.require(evalx.evaluate(num.as_expr(), full) == ev(den) * ev(f.as_expr()) % evalx.P, lambda: "%s transformed to %s over %s" % (f, num, den), "problem:value")
        for coll, what in ((g2, "inequality"), (h2, "equality")):
            for k, name in coll.items():
                # every new constraint equals what its name stands for
                ctx.require(evalx.evaluate(k.as_expr(), full) == ev(name), lambda: "the %s %s is called %s" % (what, k.as_expr(), name), "problem:constraint")
        srcs = [set(), set()]
        for s, coll in zip(srcs, (g2, h2)):
            for name in coll.values():
                s |= sp.sympify(name).atoms(sp.Symbol, sp.core.function.AppliedUndef) & set(val)
        ctx.require(srcs[0] <= set(cons[0].values()) and srcs[1] <= set(cons[1].values()), lambda: "constraints moved between inequalities %s and equalities %s" % (g2, h2), "problem:kind")


# ---------------------------------------------------------------- helpers
def _factor_case():
    pt = st.lists(gen.rats(4, 2), min_size=3, max_size=3)
    return st.fixed_dictionaries({"f": gen.poly(3, 2, 3, min_terms=1), "k": st.integers(0, 3), "r": gen.poly(3, 3, 4, min_terms=1), "pt": st.one_of(st.none(), pt), "i": st.integers(0, 4)})


@CHECK.sub("factor", _factor_case, quick=240, thorough=8000, shards=2,
           rule="a factor is extracted with its full multiplicity, with or without points where it vanishes")
def factor(case, ctx):
    ef = ctx.helper("triples.core.symsos.basic", "extract_factor")
    syms = in_syms(case["i"], 3)
    f, r = gen.to_poly(case["f"], syms, "QQ"), gen.to_poly(case["r"], syms, "QQ")
    pts = []
    if case["pt"] is not None:
        v = [gen.R(x) for x in case["pt"]]
        f = f - f.eval(dict(zip(syms, v)))
        pts = [tuple(v)]
    if f.total_degree() < 1:
        ctx.skip("constant factor")
    p = r * f**case["k"]
    k, rem = ef(p, f, pts)
    if case["k"] and not p.is_zero:
        ctx.nontrivial()
    ctx.label("k:%d" % case["k"], "points" if pts else "no points", "zero" if p.is_zero else "nonzero")
    ctx.require(rem * f**k == p, lambda: "%s is not (%s)^%d * (%s)" % (p, f, k, rem), "factor:value")
    ctx.require(p.is_zero or not sp.div(rem, f)[1].is_zero, lambda: "(%s) still divides the remainder %s of %s" % (f, rem, p), "factor:multiplicity")


def _pivot_case():
    t = st.tuples(st.integers(0, 2), st.lists(st.integers(0, 2), min_size=3, max_size=3), gen.poly(3, 1, 2, min_terms=1)).map(list)
    return st.fixed_dictionaries({"n": st.integers(1, 3), "t": st.lists(t, min_size=1, max_size=3), "m": gen.poly(3, 3, 2), "nn": st.lists(st.booleans(), min_size=3, max_size=3),
                                  "hom": st.booleans(), "i": st.integers(0, 4)})


@CHECK.sub("pivot", _pivot_case, quick=360, thorough=12000, shards=4,
           rule="the recursive proof of polynomials built from nonnegative parts and perturbations: an answer is identical and nonnegative term by term")
def pivot(case, ctx):
    prove = ctx.helper("triples.core.symsos.basic", "prove_by_pivoting")
    n = case["n"]
    syms = in_syms(case["i"], n)
    p = {}
    nn = [i for i in range(n) if case["nn"][i]]
    for c, m, q in case["t"]:
        m = [k if i in nn else 2 * (k // 2) for i, k in enumerate(m[:n])]
        q = {}
        for cc, e in case["t"][0][2]:
            q = ineq.padd(q, {tuple(e[:n]): gen.R(cc)})
        p = ineq.padd(p, ineq.pscale(ineq.pmul({tuple(m): sp.Integer(1)}, ineq.pmul(q, q)), sp.Integer(c)))
    for c, e in case["m"]:
        p = ineq.padd(p, {tuple(e[:n]): gen.R(c)})
    p = {m: c for m, c in p.items() if c}
    if case["hom"] and p:
        d = max(map(sum, p))
        p = {m: c for m, c in p.items() if sum(m) == d}
    poly = sp.Poly(ineq.to_expr(p, syms), *syms, domain="QQ")
    names = {syms[i] for i in nn}
    e = prove(poly, nonnegative_symbols=names)
    ctx.label("n:%d" % n, "answered" if e is not None else "none")
    if e is None:
        return
    ctx.nontrivial()
    e = cert._expand_cyclic(sp.sympify(e))
    cert.check_certificate(ctx, e, poly.as_expr(), syms, {}, "pivoting")
    ctx.require(ineq.visible(e, names), lambda: "%s, with %s nonnegative, is proved by %s" % (poly.as_expr(), names, e), "pivot:sign")


# ---------------------------------------------------------------- certificates
def _solve_case():
    blk = st.tuples(st.integers(0, 3), st.lists(st.integers(0, 1), min_size=3, max_size=3), st.lists(gen.rats(4, 2), min_size=3, max_size=3)).map(list)
    return st.fixed_dictionaries({
        "method": st.sampled_from(["real", "real", "positive"]), "blocks": st.lists(blk, min_size=1, max_size=3), "mono": st.one_of(st.none(), st.tuples(gen.rats(), st.integers(0, 20)).map(list)),
        "con": st.sampled_from(["none", "self", "func", "sym", "scaled", "missing", "cubed"]), "i": st.integers(0, 4), "extra": st.sampled_from([None, None, "symmetric", "equality"]), "free": st.booleans(),
        "dehom": st.sampled_from([False, False, False, True])})


def solve_poly(case):
    """A form that is a nonnegative combination of x, y, z (the new variables), brought back to a, b, c."""
    a, b, c = [ineq.pvar(i, 3) for i in range(3)]
    one = ineq.pconst(sp.Integer(1), 3)

    def sub(u, v):
        return ineq.padd(u, ineq.pscale(v, sp.Integer(-1)))
    if case["free"]:
        # a symmetric form that is nonnegative for another reason
        d = 2 + 2 * (len(case["blocks"]) % 3)
        q = {}
        for _, m, cs in case["blocks"]:
            k = d // 2
            t = {}
            for j, u in enumerate(cs):
                if gen.R(u):
                    t = ineq.padd(t, {(k - j % (k + 1), min(j % (k + 1), k), 0) if m[0] else (0, k - j % (k + 1), j % (k + 1)): gen.R(u)})
            q = ineq.padd(q, ineq.pmul(t, t))
        return ineq.pcyc(q, ineq.sym_els(3))
    disc = ineq.ppow(vander(3), 2, 3)
    p1 = ineq.padd(a, b, c)
    r = ineq.pmul(a, ineq.pmul(b, c))
    real = case["method"] == "real"
    if real:
        x = sub(ineq.padd(ineq.ppow(a, 3, 3), ineq.ppow(b, 3, 3), ineq.ppow(c, 3, 3)), ineq.pscale(r, sp.Integer(3)))
        t = [sub(ineq.pscale(u, sp.Integer(3)), p1) for u in (a, b, c)]
        y = ineq.pscale(ineq.pmul(t[0], ineq.pmul(t[1], t[2])), sp.Rational(1, 2))
        z, zd = ineq.pscale(disc, sp.Rational(27, 4)), 6
    else:
        x = ineq.pcyc(ineq.pmul(a, ineq.pmul(sub(a, b), sub(a, c))), ineq.cyc_els(3))
        y = ineq.pcyc(ineq.pmul(a, ineq.pmul(sub(b, c), sub(b, c))), ineq.cyc_els(3))
        z, zd = ineq.pmul(disc, ineq.ppow(p1, 3, 3)), 9   # times abc
    tot, parts = {}, []
    for w, m, cs in case["blocks"]:
        u = ineq.padd(ineq.pscale(x, gen.R(cs[0])), ineq.pscale(y, gen.R(cs[1])))
        t = ineq.pmul(u, u)
        if real:
            if m[2]:
                t = ineq.pmul(z, t)
        else:
            t = ineq.pmul(ineq.ppow(x, m[0], 3), t)
            t = ineq.pmul(ineq.ppow(y, m[1], 3), t)
            t = ineq.pmul(z if m[2] else r, t)
        if w and any(t.values()):
            parts.append(ineq.pscale(t, sp.Integer(w)))
    degs = [max(map(sum, [m for m, k in t.items() if k])) for t in parts if any(t.values())]
    if not degs:
        return {}
    # bring every part to the same degree with nonnegative factors of the right degree
    D = max(degs)
    w2 = ineq.pscale(ineq.padd(*[ineq.ppow(sub(u, v), 2, 3) for u, v in ((a, b), (b, c), (c, a))]), sp.Rational(1, 2))
    for t, d in zip(parts, degs):
        while d < D:
            if D - d >= 2 and (D - d) % 2 == 0:
                t, d = ineq.pmul(t, w2 if real else ineq.ppow(p1, 2, 3)), d + 2
            else:
                t, d = ineq.pmul(t, p1), d + 1
        tot = ineq.padd(tot, t)
    return tot


@CHECK.sub("certify", _solve_case, quick=420, thorough=12000, shards=8, case_timeout=60, hang=True,
           rule="forms that are nonnegative combinations of the new variables, under named constraints: a certificate is identical to the form and nonnegative term by term")
def certify(case, ctx):
    from triples.core.symsos import SymmetricSOS
    syms = in_syms(case["i"], 3)
    p = {m: c for m, c in solve_poly(case).items() if c}
    if case["mono"] and p:
        d = sum(next(iter(p)))
        q, i = case["mono"]
        ms = weighted([1, 2, 3], d)
        p = ineq.padd(p, from_coords([(q, ms[i % len(ms)])], elementary(3), 3))
        p = {m: c for m, c in p.items() if c}
    if not p or max(map(sum, p)) > 12:
        ctx.skip("degenerate")
    con, back = cert.constraints(case["con"], syms)
    eqs = {}
    if case["extra"] == "symmetric":
        nm = sp.Function("S")(syms[0])
        con[syms[0] * syms[1] + syms[1] * syms[2] + syms[2] * syms[0]] = nm
        back[nm] = syms[0] * syms[1] + syms[1] * syms[2] + syms[2] * syms[0]
    elif case["extra"] == "equality":
        nm = sp.Symbol("h_1")
        eqs[syms[0] + syms[1] + syms[2] - 3] = nm
        back[nm] = syms[0] + syms[1] + syms[2] - 3
    target = ineq.to_expr(p, syms)
    if case["dehom"]:
        # an inhomogeneous problem in two variables
        target = sp.expand(target.subs(syms[2], 1))
        con = {k: v for k, v in con.items() if not sp.sympify(k).has(syms[2]) or False}
    sol = SymmetricSOS(target, con, eqs)
    ctx.label(case["method"], "con:" + case["con"], "answered" if sol is not None else "none", "other" if case["free"] else "planted", "dehomogenized" if case["dehom"] else "form")
    if sol is None:
        return
    ctx.nontrivial()
    e = sol.solution
    ctx.label("degree %d" % max(map(sum, p)))
    cert.check_certificate(ctx, e, target, syms, back, "SymmetricSOS")
    f = cert._expand_cyclic(e)
    bad = f.atoms(sp.core.function.AppliedUndef) - set(con.values()) - set(eqs.values())
    ctx.require(not bad, lambda: "the certificate %s mentions %s" % (e, bad), "certify:names")
    ctx.require(ineq.visible(f, list(con.values()), zero=list(eqs.values())), lambda: "the certificate of %s under %s is not nonnegative term by term: %s" % (target, con, f), "certify:sign")
