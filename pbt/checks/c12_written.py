"""C12: written-out polynomials read back as themselves."""
import re

from hypothesis import strategies as st
import sympy as sp
from sympy.combinatorics import Permutation, PermutationGroup

from .. import evalx, gen, reader
from ..core import Check

CHECK = Check("C12", rule="random polynomials in 1-5 single letter variables (homogeneous or not, rational, surd, decimal or parametric "
              "coefficients), symmetrised over a group or not, and products of permuted factors; every produced text is read back by "
              "an independent reader and by the parser of the repository, every produced table is compared entry by entry. "
              "Non-trivial: at least two monomials.")

GENS = [["a", "b", "c", "d", "f"], ["x", "y", "z", "w", "u"], ["c", "b", "a", "d", "k"], ["q", "t", "r", "k", "m"], ["b", "a", "d", "c", "g"]]


def coef(kind):
    if kind == "big":
        return gen.big_rats()
    if kind in ("surd", "param", "float"):
        return st.one_of(gen.rats(), st.tuples(st.integers(-6, 6), st.integers(1, 4), st.integers(-3, 3)).map(list))
    return gen.rats()


def value(c, kind, par):
    if len(c) == 2:
        return gen.R(c)
    p, q, k = c
    if kind == "surd":
        return sp.Rational(p, q) + k * sp.sqrt(2 if q % 2 else 3)
    if kind == "float":
        return sp.Float(p / 8 + k / 1000.0)
    return sp.Rational(p, q) * par + k * par**2


@st.composite
def _poly(draw, nmin=1, nmax=5, dmax=6, hom=None, kinds=("rat", "rat", "big", "surd", "param")):
    n = draw(st.sampled_from([x for x in (1, 2, 3, 3, 3, 4, 5) if nmin <= x <= nmax]))
    kind = draw(st.sampled_from(kinds))
    d = draw(st.integers(0, dmax if n < 4 else min(dmax, 4)))
    h = draw(st.booleans()) if hom is None else hom
    t = draw(gen.hom_poly(n, d, 5, coef=coef(kind)) if h and n > 1 else gen.poly(n, d, 5, coef=coef(kind)))
    return {"n": n, "kind": kind, "d": d, "t": t, "gens": draw(st.integers(0, len(GENS) - 1))}


def build(c, els=None):
    names = GENS[c["gens"]][:c["n"]]
    syms = tuple(sp.Symbol(s) for s in names)
    par = sp.Symbol([x for x in "xkj" if x not in names][0])
    d = {}
    for k, e in c["t"]:
        for g in els or [tuple(range(c["n"]))]:
            m = tuple(e[i] for i in g)
            d[m] = d.get(m, 0) + value(k, c["kind"], par)
    d = {m: sp.expand(v) for m, v in d.items()}
    d = {m: v for m, v in d.items() if v != 0}
    expr = sp.Add(*[v * sp.Mul(*[s**k for s, k in zip(syms, m)]) for m, v in d.items()])
    return sp.Poly(expr, *syms, **({"extension": True} if c["kind"] == "surd" else {})), syms, d


def group(g, n):
    if g is None:
        return None, [tuple((i + s) % n for i in range(n)) for s in range(n)]
    return PermutationGroup(*[Permutation(p) for p in g]), evalx.close_group([tuple(p) for p in g])


def reads_back(ctx, text, p, syms, els, perm, sig, approx=False):
    from triples.utils.text_process import preprocess_text
    try:
        e = reader.read(text, syms, els)
    except (reader.Bad, RecursionError) as ex:
        ctx.fail("%s is written as %r, which is not a polynomial text: %s" % (p, text, ex), sig + ":syntax")
    if approx:
        q = sp.Poly(e - p.as_expr(), *syms)
        ctx.require(all(abs(c) < 1e-6 for c in q.coeffs()), lambda: "%s is written as %r" % (p, text), sig + ":value")
    else:
        d = evalx.differs(e, p.as_expr(), sorted(e.free_symbols | p.as_expr().free_symbols, key=str))
        ctx.require(not d, lambda: "%s is written as %r, which is %s (%s)" % (p, text, sp.expand(e), d), sig + ":value")
    q = preprocess_text(text, gens=syms, perm=perm, scientific_notation=approx)
    ctx.require(isinstance(q, sp.Poly) and q.gens == tuple(syms), lambda: "%s is written as %r and read back as %r" % (p, text, q), sig + ":parse")
    if approx:
        return
    d = evalx.differs(q.as_expr(), p.as_expr(), sorted(q.as_expr().free_symbols | p.as_expr().free_symbols, key=str))
    ctx.require(not d, lambda: "%s is written as %r and read back as %s (%s)" % (p, text, q, d), sig + ":parse")


@st.composite
def _standard(draw):
    c = draw(_poly())
    c["g"] = draw(st.one_of(st.none(), gen.named_group(c["n"])))
    c["sym"] = draw(st.sampled_from([True, True, False]))
    c["mul"], c["pow"] = draw(st.booleans()), draw(st.booleans())
    c["flag"] = draw(st.sampled_from([None, None, None, False]))
    return c


@CHECK.sub("standard", _standard, quick=2500, thorough=60000, shards=3, case_timeout=15, hang=True, rule="sorted and cyclic standard form")
def standard(case, ctx):
    from triples.utils.expression.form import poly_get_standard_form
    perm, els = group(case["g"], case["n"])
    if len(els) > 24:
        ctx.skip("large group")
    p, syms, d = build(case, els if case["sym"] else None)
    ctx.label(case["kind"], "cyclic" if case["sym"] else "plain", "mul" if case["mul"] else "", "pow" if case["pow"] else "", "group%d" % len(els))
    ctx.nontrivial(len(d) > 1)
    kw = {} if case["flag"] is None else {"_is_cyc": False}
    text = poly_get_standard_form(p, perm, omit_mul=not case["mul"], omit_pow=not case["pow"], **kw)
    ctx.require(isinstance(text, str), lambda: "%r" % (text,), "standard:type")
    if case["flag"] is None and case["sym"] and p.total_degree() > 0 and len(els) > 1:
        ctx.require(text.startswith("s("), lambda: "%s is invariant but is written %r" % (p, text), "standard:cyclic")
    reads_back(ctx, text, p, syms, els, perm, "standard")
    ctx.require(poly_get_standard_form(p, perm, omit_mul=not case["mul"], omit_pow=not case["pow"], **kw) == text, "not repeatable", "standard:repeat")


@st.composite
def _factors(draw):
    n = draw(st.sampled_from([2, 3, 3, 3, 4]))
    fs = []
    for _ in range(draw(st.integers(1, 3))):
        d = draw(st.sampled_from([1, 1, 1, 2]))
        t = draw(st.one_of(gen.hom_poly(n, d, 3, coef=st.integers(-2, 2).map(lambda k: [k, 1]), min_terms=1),
                           st.sampled_from([(0, 1), (1, 2), (0, 2), (1, 0)]).map(lambda ij: [[[1, 1], _unit(n, ij[0])], [[-1, 1], _unit(n, ij[1])]] if max(ij) < n else [[[1, 1], _unit(n, 0)]]),
                           gen.poly(n, 1, 3, coef=st.integers(-2, 2).map(lambda k: [k, 1]), min_terms=1)))
        fs.append([t, draw(st.integers(1, 4)), draw(st.sampled_from([True, True, False])), draw(st.integers(0, 5))])
    return {"n": n, "f": fs, "g": draw(st.one_of(st.none(), st.none(), gen.named_group(n))), "mul": draw(st.booleans()), "pow": draw(st.booleans()),
            "c": draw(st.one_of(gen.rats(5, 4), st.tuples(st.integers(-3, 3), st.integers(1, 2), st.integers(-2, 2)).map(list))),
            "kind": draw(st.sampled_from(["rat", "rat", "surd", "param"])), "gens": draw(st.integers(0, len(GENS) - 1))}


def _unit(n, i):
    return [1 if j == i else 0 for j in range(n)]


@CHECK.sub("factor", _factors, quick=1500, thorough=30000, shards=2, case_timeout=15, hang=True, rule="factored form")
def factor(case, ctx):
    from triples.utils.expression.form import poly_get_factor_form
    n = case["n"]
    perm, els = group(case["g"], n)
    names = GENS[case["gens"]][:n]
    syms = tuple(sp.Symbol(s) for s in names)
    par = sp.Symbol([x for x in "xkj" if x not in names][0])
    if len(els) > 8:
        ctx.skip("large group")
    prod = sp.Poly(1, *syms)
    for t, k, cyc, skip in case["f"]:
        base = gen.to_poly(t, syms)
        imgs = [base.as_expr().xreplace(dict(zip(syms, [syms[j] for j in g]))) for g in els] if cyc else [base.as_expr()]
        for i, im in enumerate(imgs):
            prod = prod * sp.Poly(im, *syms)**(k if (i + skip) % 6 else max(k - 1, 0))
            if prod.total_degree() > 10:
                ctx.skip("large")
    c = value(case["c"], case["kind"], par)
    p = sp.Poly(c * prod.as_expr(), *syms)
    if p.total_degree() > 12:
        ctx.skip("large")
    text = poly_get_factor_form(p, perm, omit_mul=not case["mul"], omit_pow=not case["pow"])
    ctx.label(case["kind"], "p" if "p(" in text else "", "s" if "s(" in text else "", "group%d" % len(els))
    ctx.nontrivial(len(p.terms()) > 1)
    reads_back(ctx, text, p, syms, els, perm, "factor")


# ---------------------------------------------------------------- decimals
@CHECK.sub("decimals", lambda: st.tuples(_poly(kinds=("float",)), st.booleans(), st.booleans()).map(list), quick=300, thorough=5000, case_timeout=15, hang=True, rule="decimal coefficients, to 1e-6")
def decimals(case, ctx):
    from triples.utils.expression.form import poly_get_standard_form
    c, mul, pw = case
    p, syms, d = build(c)
    ctx.nontrivial(len(d) > 1)
    perm, els = group(None, c["n"])
    text = poly_get_standard_form(p, perm, omit_mul=not mul, omit_pow=not pw)
    reads_back(ctx, text, p, syms, els, perm, "decimal", approx=True)


# ---------------------------------------------------------------- tables
@st.composite
def _table(draw):
    c = draw(_poly(nmin=3, nmax=3, dmax=8, hom=True, kinds=("rat", "big", "surd", "param")))
    c["tab"], c["doc"] = draw(st.booleans()), draw(st.booleans())
    c["zeros"] = draw(st.sampled_from(["default", "", None, "\\textcolor{red}"]))
    c["dense"] = draw(st.booleans())
    return c


def _dense(case):
    if case["dense"]:
        ms = _monos(3, case["d"])
        case = dict(case, t=case["t"] + [[[i + 1, 1], list(m)] for i, m in enumerate(ms) if (i * 7 + case["d"]) % 5])
    return case


def _monos(n, d):
    if n == 1:
        return [(d,)]
    return [(i,) + m for i in range(d, -1, -1) for m in _monos(n - 1, d - i)]


@CHECK.sub("latex_table", _table, quick=800, thorough=15000, shards=1, case_timeout=15, hang=True, rule="LaTeX triangle of coefficients, ternary forms")
def latex_table(case, ctx):
    from triples.utils.expression.form import latex_coeffs
    case = _dense(case)
    p, syms, d = build(case)
    ctx.nontrivial(len(d) > 1)
    if p.is_zero:
        ctx.skip("zero")
    n = p.total_degree()
    kw = {} if case["zeros"] == "default" else {"zeros": case["zeros"]}
    s = latex_coeffs(p, tabular=case["tab"], document=case["doc"], **kw)
    body = re.search(r"\\begin\{tabular\}\{(c*)\}(.*)\\end\{tabular\}", s, re.S) if case["tab"] else re.search(r"\\begin\{matrix\}(.*)\\end\{matrix\}", s, re.S)
    ctx.require(body is not None, lambda: "%s: %r has no table" % (p, s), "table:form")
    if case["tab"]:
        ctx.require(len(body.group(1)) == 2 * n + 1, lambda: "%s: %r has %d columns" % (p, s, len(body.group(1))), "table:form")
    rows = [[re.sub(r"(^|[^\\])\\(?=\s|$)", r"\1", c).strip() for c in r.split("&")] for r in body.groups()[-1].split("\\\\")]
    ctx.require(len(rows) == n + 1 and all(len(r) == 2 * n + 1 for r in rows), lambda: "%s: table with rows of %s cells" % (p, [len(r) for r in rows]), "table:shape")
    zero = {"default": "\\textcolor{lightgray}{0}", "": "0", None: "0"}.get(case["zeros"], "%s{0}" % case["zeros"])
    for j, row in enumerate(rows):
        for x, cell in enumerate(row):
            k = x - j
            if 0 <= k <= 2 * (n - j) and k % 2 == 0:
                m = (n - j - k // 2, k // 2, j)
                want = sp.latex(p.coeff_monomial(m)) if p.coeff_monomial(m) != 0 else zero
            else:
                m, want = None, ("",)
            ctx.require(cell == want or cell in want and isinstance(want, tuple), lambda: "%s: cell (%d,%d) for %s is %r, not %r" % (p, j, x, m, cell, want), "table:cell")


@st.composite
def _triangle(draw):
    c = draw(_poly(nmin=3, nmax=4, dmax=8, hom=True, kinds=("rat", "big", "surd", "param", "float")))
    c["explicit"], c["zero"] = draw(st.booleans()), draw(st.sampled_from([False, False, False, True]))
    c["dense"] = draw(st.booleans()) and c["n"] == 3
    return c


@CHECK.sub("triangle", _triangle, quick=1500, thorough=25000, shards=2, case_timeout=15, hang=True, rule="coefficient triangle / tetrahedron of the interface")
def triangle(case, ctx):
    from triples.utils.text_process import coefficient_triangle
    case = _dense(case)
    p, syms, d = build(case)
    if case["zero"]:
        p, d = sp.Poly(0, *syms), {}
    ctx.nontrivial(len(d) > 1)
    n = case["d"] if p.is_zero else p.total_degree()
    ctx.label(case["kind"], "zero" if p.is_zero else "")
    if p.is_zero or case["explicit"]:
        t = coefficient_triangle(p, n)
    else:
        t = coefficient_triangle(p)
    ms = _monos(case["n"], n)
    ctx.require(isinstance(t, list) and len(t) == len(ms), lambda: "%s of degree %d: %d entries, not %d" % (p, n, len(t), len(ms)), "triangle:length")
    for m, txt in zip(ms, t):
        c = p.coeff_monomial(m)
        shown(ctx, c, txt, lambda: "%s: entry for %s is %r, not %s" % (p, m, txt, c), "triangle:entry")


def shown(ctx, c, txt, msg, sig):
    try:
        e = reader.read(txt, [], [])
    except reader.Bad as ex:
        ctx.fail(msg() + ": " + str(ex), sig)
    if c.is_Number and (c.is_Float or len(str(c)) > 10):
        ctx.require(abs(sp.Rational(str(c)) - sp.Rational(txt)) <= sp.Rational(1, 19999) + abs(sp.Rational(str(c))) / 10**13, msg, sig)
    else:
        ctx.require(not evalx.differs(e, c, sorted(e.free_symbols | c.free_symbols, key=str)), msg, sig)


# ---------------------------------------------------------------- one coefficient
@st.composite
def _constant(draw):
    return {"p": draw(st.integers(-99, 99)), "q": draw(st.integers(1, 30)), "r": draw(st.integers(2, 30)), "k": draw(st.integers(2, 4)), "add": draw(st.sampled_from([0, 0, 1, 2])), "par": draw(st.integers(0, 3)), "c2": draw(st.integers(-3, 3))}


@CHECK.sub("constant", _constant, quick=800, thorough=10000, case_timeout=10, hang=True, rule="one coefficient: rational multiples of roots and parameters")
def constant(case, ctx):
    f = ctx.helper("triples.utils.text_process", "short_constant_parser")
    x, y = sp.symbols("x y")
    c = sp.Rational(case["p"], case["q"]) * sp.Integer(case["r"])**sp.Rational(1, case["k"]) * [1, x, x * y, x**2][case["par"]]
    c = c + case["add"] * case["c2"] * [1, sp.sqrt(3), y][case["add"]]
    ctx.nontrivial(not c.is_Rational)
    txt = f(c)
    shown(ctx, c, txt, lambda: "%s is shown as %r" % (c, txt), "constant")
