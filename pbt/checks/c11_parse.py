"""C11: typed inequalities are parsed as written."""
import os
import tempfile

import mpmath
from hypothesis import strategies as st
import sympy as sp
from sympy.combinatorics import Permutation, PermutationGroup

from .. import evalx, gen, notation
from ..core import Check

CHECK = Check("C11", rule="random abstract expressions over 1-4 single letter variables spelled in many ways (juxtaposition, explicit or "
              "implied powers, upper case, blanks, LaTeX, s(...)/p(...) and \\sum/\\prod over the chosen group); the parsed value is "
              "compared with the value computed from the abstract expression. Non-trivial: the expression has a variable and at "
              "least two factors or terms.")

GENS = [["a", "b", "c", "d"], ["x", "y", "z", "w"], ["c", "b", "a", "d"], ["t", "u", "v", "w"], ["q", "t", "r", "k"], ["m", "n", "o", "h"], ["b", "c", "a", "k"]]


@st.composite
def _case(draw, latex=None, div=None, plain=False):
    n = draw(st.sampled_from([1, 2, 3, 3, 3, 4]))
    opts = {"latex": draw(st.booleans()) if latex is None else latex, "div": draw(st.booleans()) if div is None else div,
            "param": draw(st.booleans()), "sqrt": draw(st.booleans()), "cbrt": not plain and draw(st.sampled_from([False, False, True])),
            "dec": not plain and draw(st.sampled_from([False, False, False, True])), "sci": not plain and draw(st.sampled_from([False, False, False, True])), "zeropow": draw(st.sampled_from([False, False, True]))}
    depth = draw(st.sampled_from([1, 1, 2]))
    return {"n": n, "gens": draw(st.integers(0, len(GENS) - 1)), "latex": opts["latex"], "cbrt": opts["cbrt"],
            "g": draw(st.one_of(st.none(), gen.named_group(n))), "e": draw(notation.exprs(n, depth, opts)),
            "style": draw(st.lists(st.integers(0, 59), min_size=1, max_size=12)), "sci": opts["sci"]}


def setup(case, ctx):
    n = case["n"]
    if notation.size(case["e"]) > 150:
        ctx.skip("large")
    names = GENS[case["gens"]][:n]
    param = "x" if "x" not in names else "k"
    syms = tuple(sp.Symbol(s) for s in names)
    els = evalx.close_group([tuple(p) for p in case["g"]]) if case["g"] else [tuple((i + s) % n for i in range(n)) for s in range(n)]
    if len(els) > 8:
        ctx.skip("large group")
    perm = PermutationGroup(*[Permutation(p) for p in case["g"]]) if case["g"] else None
    text = notation.Writer(names, case["style"], case["latex"], param).expr(case["e"])
    want = notation.Meaning(syms, els, param).expr(case["e"])
    if not case["cbrt"] and "cbrt" in text:
        ctx.skip("cbrt not enabled")
    if want.has(sp.nan, sp.zoo, sp.oo):
        ctx.skip("division by zero")
    if sp.count_ops(want) > 400:
        ctx.skip("large")
    kw = dict(gens=syms, perm=perm, scientific_notation=case["sci"], preserve_cbrt=case["cbrt"])
    ctx.label("n%d" % n, "latex" if case["latex"] else "plain", "group%d" % len(els), *["uses " + t for t in ("s", "p", "sum", "prod", "frac", "sqrt", "cbrt", "x", "dec") if notation.uses(case["e"], t)])
    ctx.nontrivial(bool(want.free_symbols) and notation.size(case["e"]) > 8)
    return syms, text, want, kw, param


def same(got, want, syms, param, approx):
    """None, or a description of the difference."""
    vs = list(syms) + [sp.Symbol(param)]
    extra = got.free_symbols - set(vs)
    if extra:
        return "unexpected symbols %s" % extra
    if approx:
        for k in range(3):
            env = {v: mpmath.mpf(3 + 7 * k + i) / (5 + i + k) for i, v in enumerate(vs)}
            try:
                a, b = evalx.evaluate(got, env, evalx.MP), evalx.evaluate(want, env, evalx.MP)
            except (evalx.DivZero, ZeroDivisionError):
                continue
            # an expanded polynomial cancels: rounding of its coefficients counts with the size of its terms
            mag = evalx.evaluate(sp.Add(*[sp.Mul(*[abs(f) if f.is_number else f for f in sp.Mul.make_args(t)]) for t in sp.Add.make_args(got)]), env, evalx.MP)
            if abs(a - b) > 1e-8 * (1 + abs(a) + abs(b) + abs(mag)):
                return "values %s and %s at %s" % (a, b, env)
        return None
    d = evalx.differs(got, want, vs)
    if d and "undefined" in d:
        return None
    return d


@CHECK.sub("spelling", _case, quick=1000, thorough=60000, shards=4, case_timeout=6, rule="return types expr, poly and frac")
def spelling(case, ctx):
    from triples.utils.text_process import preprocess_text
    syms, text, want, kw, param = setup(case, ctx)
    dec = notation.uses(case["e"], "dec", "sci")
    try:
        got = preprocess_text(text, return_type="expr", **kw)
    except Exception as ex:
        ctx.fail("%r is not parsed: %s: %s" % (text, type(ex).__name__, ex), "expr:raises")
    if got.has(sp.nan, sp.zoo, sp.oo):
        ctx.skip("division by zero")
    d = same(got, want, syms, param, dec)
    ctx.require(not d, lambda: "%r (gens %s) is read as %s, denotes %s: %s" % (text, syms, got, want, d), "expr:value")
    divides = notation.uses(case["e"], "/", "frac")
    p = preprocess_text(text, return_type="poly", **kw)
    if p is not None:
        ctx.require(isinstance(p, sp.Poly) and p.gens == syms, lambda: "%r gives %r" % (text, p), "poly:type")
        d = same(p.as_expr(), want, syms, param, dec)
        ctx.require(not d, lambda: "%r is read as the polynomial %s, denotes %s: %s" % (text, p, want, d), "poly:value")
    else:
        mixed = dec and notation.uses(case["e"], "sqrt", "cbrt")
        ctx.require(divides or mixed, lambda: "%r is a polynomial but was rejected" % text, "poly:rejected")
    if dec:
        return
    fr = preprocess_text(text, return_type="frac", **kw)
    ctx.require(isinstance(fr, tuple) and len(fr) == 2, lambda: "%r gives %r" % (text, fr), "frac:type")
    ctx.require((fr[0] is None) == (fr[1] is None), lambda: "%r gives %r" % (text, fr), "frac:type")
    if fr[0] is None:
        ctx.require(notation.uses(case["e"], "sqrt", "cbrt"), lambda: "%r is a fraction but was rejected" % text, "frac:rejected")
        return
    num, den = fr
    ctx.require(num.gens == syms and den.gens == syms and not den.is_zero, lambda: "%r gives %r" % (text, fr), "frac:type")
    d = same(num.as_expr() / den.as_expr(), want, syms, param, False)
    ctx.require(not d, lambda: "%r is read as the fraction %s / %s, denotes %s: %s" % (text, num, den, want, d), "frac:value")
    if not divides and not notation.uses(case["e"], "x"):
        ctx.require(den.total_degree() == 0, lambda: "%r: fraction %s / %s" % (text, num, den), "frac:poly")


@CHECK.sub("latex", lambda: _case(latex=True), quick=700, thorough=30000, shards=2, case_timeout=6, rule="LaTeX spellings")
def latex(case, ctx):
    spelling(case, ctx)


# ---------------------------------------------------------------- lists
def _list_case():
    return st.fixed_dictionaries({"items": st.lists(st.one_of(_case(), st.sampled_from(["", "  ", "a+", "a/b", "((a)", "a=b", "1/0", ")(", "s(a", "a b c", "0"])), min_size=1, max_size=4),
                                  "poly": st.lists(st.booleans(), min_size=4, max_size=4), "file": st.booleans(), "g": st.one_of(st.none(), gen.named_group(3)),
                                  "ignore": st.booleans()})


@CHECK.sub("lists", _list_case, quick=350, thorough=6000, shards=2, case_timeout=30, hang=True,
           rule="lists and files of texts (some malformed, some already polynomials) read as each item alone")
def lists(case, ctx):
    from triples.utils.text_process import PolyReader, preprocess_text
    syms = sp.symbols("a b c")
    perm = PermutationGroup(*[Permutation(p) for p in case["g"]]) if case["g"] else None
    items, expect = [], []
    for it, as_poly in zip(case["items"], case["poly"]):
        if isinstance(it, dict):
            if notation.size(it["e"]) > 60 or it["n"] > 3 or it["cbrt"]:
                continue
            text = notation.Writer(["a", "b", "c"], it["style"], it["latex"]).expr(it["e"])
        else:
            text = it
        blank = not text.strip()
        try:
            alone = preprocess_text(text.strip(), gens=syms, perm=perm) if not blank else None
            err = False
        except Exception:
            alone, err = None, True
        if as_poly and isinstance(alone, sp.Poly) and not case["file"]:
            items.append(alone)
        else:
            items.append(text)
        if not blank:
            expect.append((text, alone, err))
    ctx.nontrivial(len(expect) > 1)
    if case["file"]:
        fd, path = tempfile.mkstemp(suffix=".txt")
        with os.fdopen(fd, "w") as f:
            f.write("\n".join(items))
        src = path
    else:
        src = list(items)
    kwargs = {"gens": syms, "perm": perm}
    try:
        reader = PolyReader(src, ignore_errors=case["ignore"], **kwargs)
    finally:
        if case["file"]:
            os.unlink(path)
    ctx.require(len(reader) == len(expect), lambda: "%d entries for %s" % (len(reader), items), "lists:length")
    for i, (text, alone, err) in enumerate(expect):
        try:
            got = next(reader)
        except ValueError:
            ctx.require(err and not case["ignore"], lambda: "entry %d of %s raised" % (i, items), "lists:raises")
            return
        except StopIteration:
            ctx.fail("entry %d of %s missing" % (i, items), "lists:length")
        ctx.require(not err or case["ignore"], lambda: "malformed entry %d of %s did not raise" % (i, items), "lists:raises")
        ctx.require((got is None) == (alone is None) and (got is None or got == alone), lambda: "entry %d of %s is %s, alone it is %s" % (i, items, got, alone), "lists:value")
    ctx.require(next(reader, "end") == "end", "more entries than texts", "lists:length")
    if not case["file"]:
        ctx.require(src == items, "the list was modified", "lists:mutated")


# ---------------------------------------------------------------- degree of a vanishing form
@st.composite
def _zero_case(draw):
    n = draw(st.sampled_from([2, 3, 3, 4]))
    d = draw(st.integers(1, 4))
    t = draw(gen.hom_poly(n, d, 3, coef=st.integers(1, 9).map(lambda k: [k, 1]), min_terms=1))
    return {"n": n, "d": d, "t": t, "gens": draw(st.integers(0, 3)), "form": draw(st.integers(0, 5)), "pre": draw(gen.hom_exponents(n, draw(st.integers(0, 2)))),
            "g": draw(st.one_of(st.none(), gen.named_group(n))), "mul": draw(st.booleans()), "param": draw(st.booleans())}


@CHECK.sub("zero_degree", _zero_case, quick=500, thorough=8000, shards=1, case_timeout=20, hang=True,
           rule="degree inferred for a typed form that vanishes identically")
def zero_degree(case, ctx):
    from triples.utils.text_process import degree_of_zero, preprocess_text
    n, d = case["n"], case["d"]
    names = GENS[case["gens"]][:n]
    syms = tuple(sp.Symbol(s) for s in names)
    perm = PermutationGroup(*[Permutation(p) for p in case["g"]]) if case["g"] else None
    order = len(evalx.close_group([tuple(p) for p in case["g"]])) if case["g"] else n
    if order > 6:
        ctx.skip("large group")

    def mono(e):
        return ("*" if case["mul"] else "").join(s + ("^%d" % k if case["mul"] else str(k) if k > 1 else "") for s, k in zip(names, e) if k) or "1"
    ts = [str(c[0]) + ("*" if case["mul"] else "") + mono(e) for c, e in case["t"] if sum(e)]
    body = "+".join(ts)
    pre = mono(case["pre"]) if sum(case["pre"]) else ""
    k = sum(case["pre"])
    f = case["form"]
    par = ("k" if "k" not in names else "j") if case["param"] else ""
    if f == 0:
        text, deg = "%s(%s-(%s))" % (pre, body, body), d
    elif f == 1:
        text, deg = "%s(s(%s)-s(%s))" % (pre, body, body), d
    elif f == 2:
        text, deg = "%s(%s)2-%s(%s)(%s)" % (pre, body, pre, body, body), 2 * d
    elif f == 3 and d * order <= 12:
        text, deg = "%s(p(%s)-p(%s))" % (pre, body, body), d * order
    elif f == 4:
        text, deg = "(-%s+%s)%s" % (ts[0], ts[0], pre), d
    else:
        text, deg = "%s%s-%s%s" % (pre, ts[0] if not pre else "(%s)" % ts[0], pre, ts[0] if not pre else "(%s)" % ts[0]), d
    if par:
        text = par + "(" + text + ")"
    z = preprocess_text(text, gens=syms, perm=perm)
    if z is None or not z.is_zero:
        ctx.skip("not zero")
    ctx.nontrivial()
    ctx.label("form%d" % f, "param" if par else "no param")
    got = degree_of_zero(text, gens=syms, perm=perm)
    ctx.require(got == deg + k, lambda: "%r vanishes in degree %d, reported %s" % (text, deg + k, got), "zero:degree")


# ---------------------------------------------------------------- not polynomials
TOKENS = ["a", "b", "c", "2", "3", "+", "-", "*", "/", "^", "(", ")", "s(", "p(", "sqrt(", "{", "}", "\\frac", "\\sum", " ", "=", ">", "<", ",", ";", "!", "?", "&", "|", "'", "\"", "[", "]", "_", ".", "@", "#", "%", "\n", ":", "\\cdot", "\\alpha", "\\geq", "x"]


@CHECK.sub("garbage", lambda: st.lists(st.sampled_from(TOKENS), min_size=1, max_size=9), quick=2500, thorough=50000, shards=2, case_timeout=15, hang=True,
           rule="random token strings: either rejected (exception or None), or a polynomial in the variables with finite coefficients "
                "whose terms use only letters that were typed")
def garbage(case, ctx):
    from triples.utils.text_process import preprocess_text
    syms = sp.symbols("a b c")
    text = "".join(case)
    try:
        p = preprocess_text(text, gens=syms)
    except CaseErrors:
        ctx.label("raises")
        return
    if p is None:
        ctx.label("None")
        return
    ctx.label("accepted")
    ctx.nontrivial()
    ctx.require(isinstance(p, sp.Poly) and p.gens == syms, lambda: "%r is read as %r" % (text, p), "garbage:type")
    ctx.require(all(set(x.name) <= set("abcx_23") for x in p.as_expr().free_symbols), lambda: "%r is read as %s" % (text, p), "garbage:symbols")
    ctx.require(not p.as_expr().has(sp.nan, sp.zoo, sp.oo), lambda: "%r is read as %s" % (text, p), "garbage:finite")
    if any(t in case for t in ("=", ">", "<", ",", ";", "?", "&", "|", "'", "\"", "[", "@", "#", "%", ":", "\\alpha", "\\geq")) or "//" in text:
        # a text with symbols that do not occur in polynomials
        ctx.fail("%r is not a polynomial but is read as %s" % (text, p), "garbage:accepted")


CaseErrors = Exception
