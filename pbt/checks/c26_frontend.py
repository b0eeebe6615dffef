"""C26: the interactive front ends report the typed problem consistently."""
import importlib.util
import io
import os
import re
import sys
from contextlib import redirect_stdout, redirect_stderr
from fractions import Fraction as F

import mpmath
from hypothesis import strategies as st
import sympy as sp
from sympy.combinatorics import Permutation, PermutationGroup

from .. import env, evalx, gen, notation, printed, reader
from ..core import Check
from . import c11_parse as c11, c12_written as c12

CHECK = Check("C26", rule="typed problems (random notation, documented inequalities, garbage, program code) with random variables, groups and options; "
              "sequences of requests to the web service, well-formed or not. Oracle: the value of the abstract expression, independent readers of "
              "the standard text, tables and certificates, exact evaluation for colours and zeros, an audit hook for evaluated code. "
              "Non-trivial: the problem is accepted and has at least two terms.")
GOOD = ["s(a2-ab)", "s(a2)", "s(a3-abc)", "s(a2)2-3s(a3b)", "(a-b)^2+c2", "s(a(a-b)(a-c))", "p(a+b)-8abc", "s(a4)-abcs(a)", "5", "a", "\\frac{a^2}{3}+b^2", "s(a)2-3s(ab)",
        "a^2-2ab+b^2", "s(a/(b+c))-3/2", "x a2+x b2", "s(a2b)s(ab2)-9a2b2c2", "a2+1-2a", "s(a)s(1/a)-9", "(a-1)^2+(b-2)^2+3", "s(a4-a2b2)", "a^2/b", "0", "s(ab(a-b)^2)"]
NEG = ["a^2-b^2", "-5", "s(ab-a2)", "a-b", "8abc-p(a+b)", "a2+b2-3ab", "-x", "s(a)2-4s(a2)", "abc-s(a3)", "s(a2b)-s(ab2)"]
BAD = ["a+", "((a", "a!b", "a=b", "", " ", "*a", "a,b", "a<b", "[a]", "a..b", ")(", "a==b", "sqrt(a)", "a^b", "1/0", "a/(b-b)", "{", "s(a2", "a;b", "a^(1/2)", "\u03b1+a", "a^2\u00b2", "(1/2).q", "(3/2).p+a"]


# ---------------------------------------------------------------- reading the answers
def table_ok(ctx, p, n, t, sig):
    """coefficient triangle of a ternary form (or of its dehomogenization by the last variable), tetrahedron of a quaternary form"""
    nv = len(p.gens)
    if nv not in (3, 4):
        return
    hom = p.is_homogeneous or p.is_zero
    if not hom and (nv == 4 or p.degree(p.gens[-1]) > 0):
        return
    ms = c12._monos(nv, n)
    ctx.require(isinstance(t, list) and len(t) == len(ms), lambda: "%s of degree %s has the table %s" % (p, n, t), sig)
    for m, txt in zip(ms, t):
        c = p.coeff_monomial(m if hom else m[:2] + (0,))
        c12.shown(ctx, c, txt, lambda: "%s: entry for %s is %r, not %s" % (p, m, txt, c), sig)


def colours_ok(ctx, p, cols, sig):
    """white exactly at zeros, red for positive and blue-green for negative values"""
    from triples.utils.roots import GridRender
    due = not p.is_zero and 3 <= len(p.gens) <= 4 and p.domain.is_Numerical and p.is_homogeneous
    ctx.require((cols is not None) == due, lambda: "value grid of %s: %s" % (p, cols is not None), sig)
    if cols is None:
        return
    size = 60 if len(p.gens) == 3 else 18
    key = (len(p.gens), size)
    if key not in COOR:
        COOR[key] = [tuple(int(x) for x in c) for c in GridRender.render(sp.Poly(sum(p.gens), *p.gens), size=size).grid_coor]
    coor = COOR[key]
    ctx.require(len(cols) == len(coor), lambda: "%d colours for %d points" % (len(cols), len(coor)), sig)
    try:
        f = [(m, F(int(c.p), int(c.q))) for m, c in ((m, sp.Rational(c)) for m, c in p.terms())]
    except (TypeError, ValueError):
        f = [(m, mpmath.mpf(sp.N(c, 30))) for m, c in p.terms()]
    for k in range(0, len(coor), 23):
        x = coor[k]
        ts = [c * (x[0]**m[0] * x[1]**m[1] * x[2]**m[2] * (x[3]**m[3] if len(m) > 3 else 1)) for m, c in f]
        v, a = sum(ts), sum(abs(y) for y in ts)
        col = tuple(int(y) for y in cols[k][:3])
        if abs(v) > 1e-9 * a:
            ok = (col[0] == 255 and col[2] == 0) if v > 0 else col[0] == 0
        elif a == 0 or all(isinstance(c, F) and c.denominator == 1 for m, c in f) and v == 0:
            ok = col == (255, 255, 255)
        else:
            ok = True
        ctx.require(ok, lambda: "%s has the value %s at %s, shown in the colour %s" % (p, v, x, col), sig)


COOR = {}


def text_ok(ctx, txt, p, syms, els, sig):
    ctx.require(isinstance(txt, str), lambda: "text of %s is %r" % (p, txt), sig)
    try:
        e = reader.read(txt, syms, els)
    except (reader.Bad, RecursionError) as ex:
        ctx.fail("%s is written as %r, which is not a polynomial text: %s" % (p, txt, ex), sig)
    d = evalx.differs(e, p.as_expr(), sorted(e.free_symbols | p.as_expr().free_symbols, key=str))
    ctx.require(not d, lambda: "%s is written as %r, which is %s (%s)" % (p, txt, sp.expand(e), d), sig)


def proof_ok(ctx, texts, p, syms, els, sig):
    """the three texts of a certificate denote the polynomial"""
    order = [s.name for s in syms]
    names = sorted(set(order) | {s.name for s in p.as_expr().free_symbols})
    mpmath.mp.dps = 60
    for mode in ("txt", "formatted", "latex"):
        try:
            l, sign, r = printed.read(texts[mode], mode, names)
        except printed.Bad as ex:
            ctx.fail("the proof of %s is written as %r, which cannot be read: %s" % (p, texts[mode], ex), sig + ":" + mode)
        for k in range(2):
            pt = {s: mpmath.mpf(3 + 5 * i + k * (i * i + 2)) / (2 + i + 3 * k) for i, s in enumerate(names)}
            v = evalx.evaluate(p.as_expr(), {sp.Symbol(s): x for s, x in pt.items()}, evalx.MP)
            mag = evalx.evaluate(sp.Add(*[sp.Mul(*[abs(g) if g.is_number else g for g in sp.Mul.make_args(t)]) for t in sp.Add.make_args(p.as_expr())]), {sp.Symbol(s): x for s, x in pt.items()}, evalx.MP)
            lv = printed.value(l, pt, evalx.MP, order, els, v)
            rv = printed.value(r, pt, evalx.MP, order, els)
            tol = 1e-30 if sign == "=" and not p.as_expr().has(sp.Float) else 1e-5
            ctx.require(abs(lv - rv) <= tol * (1 + abs(mag)), lambda: "the proof of %s is %r, with sides %s and %s at %s" % (p, texts[mode], mpmath.nstr(lv, 12), mpmath.nstr(rv, 12), pt), sig + ":" + mode)


def nonneg_ok(ctx, p, sig):
    """a polynomial with a certificate is nonnegative where its symbols are"""
    vs = sorted(p.as_expr().free_symbols, key=str)
    for k in range(24):
        pt = {v: sp.Rational((7 * i * i + (k + 1) * (i + 2) * (3 + k)) % 11, 1 + (k * (i + 1)) % 4) for i, v in enumerate(vs)}
        v = p.as_expr().xreplace(pt)
        ctx.require(v >= (0 if not v.has(sp.Float) else -1e-6), lambda: "%s has a proof and the value %s at %s" % (p, v, pt), sig)


# ---------------------------------------------------------------- typed text
DEHOM = [None, None, None, None, False, 0, 1, 2, "1", "0", "1/2", "sqrt(2)", "x", "a", "", "2..q", "(1/2).q", 0.5, -1]


@st.composite
def _typed(draw, n=None):
    c = draw(c11._case(plain=True))
    c["cbrt"], c["sci"] = False, False
    c["o"] = {"hom": draw(st.sampled_from([False, False, True])), "dehom": draw(st.sampled_from(DEHOM)), "std": draw(st.sampled_from([None, None, "sort", "factor", "expand"])),
              "mul": draw(st.booleans()), "pow": draw(st.booleans()), "tri": draw(st.sampled_from([True, True, False])), "grid": draw(st.sampled_from([True, False]))}
    return c


def els_of(case):
    n = case["n"]
    return evalx.close_group([tuple(p) for p in case["g"]]) if case["g"] else [tuple((i + s) % n for i in range(n)) for s in range(n)]


def transform(p, o):
    """(polynomial, changed, known) after homogenization and dehomogenization; not known if the request is not meaningful"""
    syms, changed = p.gens, False
    d = dict(p.as_dict())
    if o["hom"] and not p.is_homogeneous and not p.is_zero and p.degree(syms[-1]) == 0:
        t = p.total_degree()
        p = sp.Poly(sum(c * sp.Mul(*[x**k for x, k in zip(syms, m[:-1] + (t - sum(m),))]) for m, c in d.items()), *syms, extension=True)
        changed = True
    v = o["dehom"]
    if v is None or v is False:
        return p, changed
    if isinstance(v, str):
        v = {"1": sp.Integer(1), "0": sp.Integer(0), "1/2": sp.Rational(1, 2), "sqrt(2)": sp.sqrt(2)}.get(v)
        if v is None:
            return p, changed
    for s in reversed(syms):
        if not p.is_zero and p.degree(s) > 0:
            return sp.Poly(sp.expand(p.as_expr().xreplace({s: sp.sympify(v)})), *syms, extension=True), True
    return p, changed


def height(e):
    """bound of the degrees of the numerator and the denominator of an expression"""
    if e.is_Add:
        d = sum(height(x) for x in e.args if x.is_Pow or x.is_Mul and any(y.is_Pow and y.exp.is_negative for y in x.args))
        return max([height(x) for x in e.args] + [d if e.has(sp.Pow) and any(x.exp.is_negative for x in e.atoms(sp.Pow)) else 0])
    if e.is_Mul:
        return sum(height(x) for x in e.args)
    if e.is_Pow and e.exp.is_Integer:
        return height(e.base) * abs(int(e.exp))
    return 0 if e.is_number else 1


def samepoly(p, q):
    if p.gens != q.gens:
        return "variables %s and %s" % (p.gens, q.gens)
    e = sp.expand(p.as_expr() - q.as_expr())
    if p.as_expr().has(sp.Float) or q.as_expr().has(sp.Float):
        return None if all(abs(c) < 1e-8 for c in sp.Poly(e, *p.gens).coeffs()) else "difference %s" % e
    vs = sorted(p.as_expr().free_symbols | q.as_expr().free_symbols, key=str)
    return evalx.differs(p.as_expr(), q.as_expr(), vs)


@CHECK.sub("typed", _typed, quick=3000, thorough=20000, shards=5, case_timeout=20, rule="SOS_Manager.set_poly on spelled expressions with random options")
def typed(case, ctx):
    from triples.gui.sos_manager import SOS_Manager
    if notation.uses(case["e"], "cbrt", "dec", "sci"):
        ctx.skip("numbers of other kinds")
    syms, text, want, kw, param = c11.setup(case, ctx)
    if height(want) > (8 if want.has(sp.sqrt(2), sp.sqrt(3), sp.sqrt(5)) else 16):
        ctx.skip("large")
    els, o = els_of(case), dict(case["o"])
    o["tri"] = o["tri"] and case["n"] in (3, 4)
    a = dict(gens=syms, perm=kw["perm"])
    base = SOS_Manager.set_poly(text, render_triangle=False, render_grid=False, **a)
    if base is None:
        ctx.require(notation.uses(case["e"], "sqrt") and notation.uses(case["e"], "/", "frac"), lambda: "%r is refused" % text, "typed:refused")
        ctx.label("refused")
        return
    p0 = base["poly"]
    ctx.require(isinstance(p0, sp.Poly) and p0.gens == syms, lambda: "%r gives %r" % (text, p0), "typed:type")
    frac = notation.uses(case["e"], "/", "frac")
    ctx.label("fraction" if frac else "polynomial")
    ctx.nontrivial(len(p0.terms()) > 1)
    # the polynomial is what was typed, or the numerator of it
    num, den = sp.fraction(sp.cancel(sp.together(want))) if frac else (want, sp.Integer(1))
    try:
        ref = sp.Poly(want, *syms, extension=True) if not den.free_symbols else None
    except sp.PolynomialError:
        ref = None
    if ref is None:
        try:
            num = sp.Poly(num, *syms, extension=True)
        except sp.PolynomialError:
            ctx.skip("not a fraction")
        k1, k2 = num.LC(), p0.LC()
        ctx.require(num.is_zero == p0.is_zero and not samepoly(num * k2, p0 * k1), lambda: "%r is shown as %s, its numerator is %s" % (text, p0, num), "typed:numerator")
        ctx.label("numerator")
        text_ok(ctx, base["txt"], p0, syms, els, "typed:fraction text")
    else:
        d = samepoly(p0, ref)
        ctx.require(not d, lambda: "%r is shown as %s, it is %s (%s)" % (text, p0, ref, d), "typed:poly")
        ctx.require(base["txt"] == text or frac, lambda: "%r is shown as the text %r" % (text, base["txt"]), "typed:text")
        if base["txt"] != text:
            text_ok(ctx, base["txt"], p0, syms, els, "typed:text")
    ctx.require((base["degree"] == p0.total_degree() and base["degree"] >= 0) if not p0.is_zero else isinstance(int(base["degree"]), int) and base["degree"] >= 0, lambda: "%r of degree %s" % (text, base["degree"]), "typed:degree")
    res = SOS_Manager.set_poly(text, homogenize=o["hom"], dehomogenize=o["dehom"], standardize_text=o["std"], omit_mul=o["mul"], omit_pow=o["pow"], render_triangle=o["tri"], render_grid=o["grid"], **a)
    ctx.require(isinstance(res, dict), lambda: "%r with %s gives %r" % (text, o, res), "options:answer")
    want2, changed = transform(p0, o)
    p = res["poly"]
    ctx.require(isinstance(p, sp.Poly), lambda: "%r with %s gives %r" % (text, o, p), "options:poly")
    d = samepoly(p, want2)
    ctx.require(not d, lambda: "%r with %s becomes %s, should be %s (%s)" % (text, o, p, want2, d), "options:poly")
    ctx.label("changed" if changed else "kept")
    n = res["degree"]
    ctx.require(n == p.total_degree() if not p.is_zero else n >= 0, lambda: "%s of degree %s" % (p, n), "options:degree")
    ctx.require(("triangle" in res) == o["tri"], "triangle as asked for", "options:fields")
    surd = p.as_expr().has(sp.Float)
    if not surd:
        if o["tri"]:
            table_ok(ctx, p, n, res["triangle"], "options:triangle")
        if changed or o["std"] or base["txt"] != text or p.is_zero and res["txt"] != text:
            text_ok(ctx, res["txt"], p, syms, els, "options:text")
        else:
            ctx.require(res["txt"] == text, lambda: "%r with %s is shown as the text %r" % (text, o, res["txt"]), "options:text")
    if o["grid"]:
        grid = res.get("grid")
        if p.total_degree() <= 18:  # larger degrees are left white
            colours_ok(ctx, p, None if grid is None else grid.grid_color, "options:grid")
    else:
        ctx.require(res.get("grid") is None, "grid not asked for", "options:fields")


# ---------------------------------------------------------------- solving through the manager
@CHECK.sub("solve", lambda: st.fixed_dictionaries({"t": st.sampled_from(GOOD + NEG), "m": st.sampled_from([["StructuralSOS"], ["SymmetricSOS"], ["StructuralSOS", "SymmetricSOS"], ["LinearSOS"], None]),
           "perm": st.sampled_from(["cyc", "sym", "none", "default"]), "quiet": st.booleans(), "cfg": st.sampled_from(["default", "empty", "some"]), "more": st.sampled_from([0, 0, 0, 1, 9])}),
           quick=250, thorough=2500, shards=3, case_timeout=60, rule="SOS_Manager.sum_of_squares answers with a proof of the polynomial or None")
def solve(case, ctx):
    import copy
    from triples.gui.sos_manager import SOS_Manager
    from triples.core.sum_of_squares import DEFAULT_CONFIGS
    syms = sp.symbols("a b c")
    res = SOS_Manager.set_poly(case["t"])
    if res is None:
        ctx.skip("refused")
    p = res["poly"]
    if case["more"]:
        extra = sp.symbols("d k l m n o q r t")[:case["more"]]
        p = sp.Poly(p.as_expr() + sum(x**2 for x in extra), *syms, *extra)
    cfg = {"default": None, "empty": {}, "some": {"LinearSOS": {}, "StructuralSOS": {}}}[case["cfg"]]
    kw = {}
    if cfg is not None:
        kw["configs"] = cfg
    if case["perm"] != "default":
        kw["perm"] = {"cyc": PermutationGroup(Permutation([1, 2, 0])), "sym": sp.combinatorics.SymmetricGroup(3), "none": None}[case["perm"]]
    if case["m"] is not None:
        kw["method_order"] = list(case["m"])
    elif p.free_symbols_in_domain or case["more"]:
        ctx.skip("slow")
    if case["m"] == ["LinearSOS"] and (p.free_symbols_in_domain or case["more"]):
        ctx.skip("slow")
    keep = copy.deepcopy((cfg, DEFAULT_CONFIGS))
    ineq = sorted(p.as_expr().free_symbols, key=str)
    verbose = SOS_Manager.verbose
    SOS_Manager.verbose = not case["quiet"]
    try:
        with redirect_stdout(io.StringIO()):
            sol = SOS_Manager.sum_of_squares(p, list(ineq), [], **kw)
    finally:
        SOS_Manager.verbose = verbose
    ctx.require((cfg, DEFAULT_CONFIGS) == keep, lambda: "configurations changed from %s to %s" % (keep, (cfg, DEFAULT_CONFIGS)), "solve:args")
    ctx.label("none" if sol is None else "proof")
    ctx.nontrivial(sol is not None and len(p.terms()) > 1)
    if sol is None:
        return
    ctx.require(sp.expand(sol.problem.as_expr() - p.as_expr()) == 0, lambda: "the proof of %s is about %s" % (p, sol.problem), "solve:problem")
    nonneg_ok(ctx, p, "solve:sound")
    els = evalx.close_group([(1, 2, 0), (1, 0, 2)]) if case["perm"] == "sym" else evalx.close_group([(1, 2, 0)])
    proof_ok(ctx, {"txt": sol.str_txt, "formatted": sol.str_formatted, "latex": sol.str_latex}, sp.Poly(p.as_expr(), *syms, extension=True) if not case["more"] else p, syms, els, "solve:proof")


# ---------------------------------------------------------------- the web service
WEB = {}


def web():
    if not WEB:
        if env.REPO not in sys.path:
            sys.path.insert(0, env.REPO)
        with redirect_stdout(io.StringIO()):
            import web_main as w
        WEB["w"], WEB["threads"] = w, []
        orig = w.socketio.start_background_task

        def start(*a, **k):
            t = orig(*a, **k)
            WEB["threads"].append(t)
            return t
        w.socketio.start_background_task = start
        # the program prints to the console of the server
        w.print = lambda *a, **k: None
    return WEB["w"]


class Session:
    def __init__(self, w):
        self.w, self.http = w, w.app.test_client()
        before = set(self.rooms())
        self.sock = w.socketio.test_client(w.app, flask_test_client=self.http)
        self.sid = [x for x in self.rooms() if x not in before][0]

    def rooms(self):
        return [x for x in self.w.socketio.server.manager.rooms.get("/", {}) if x is not None]

    def post(self, url, payload):
        with redirect_stdout(io.StringIO()), redirect_stderr(io.StringIO()):
            r = self.http.post(url, json=payload)
            for t in WEB["threads"]:
                t.join()
            del WEB["threads"][:]
        return r, self.sock.get_received()

    def close(self):
        with redirect_stdout(io.StringIO()):
            self.sock.disconnect()


PERMS = {2: ["[[1,0]]", [[1, 0]]], 3: ["[[1,2,0]]", [[1, 2, 0]], "[[1,2,0],[1,0,2]]", "[[0,1,2]]"], 4: ["[[1,2,3,0]]", [[1, 2, 3, 0], [1, 0, 2, 3]]]}


def _req():
    text = st.one_of(st.sampled_from(GOOD), st.sampled_from(GOOD), st.sampled_from(GOOD), st.sampled_from(NEG), st.sampled_from(BAD))
    form = st.sampled_from([2, 3, 4, 4]).flatmap(lambda d: gen.hom_poly(3, d, 5, st.integers(-4, 6), min_terms=1)).map(
        lambda t: "+".join("(%d)" % c + "".join("*%s^%d" % (s, e) for s, e in zip("abc", m) if e) for c, m in t) or "0")
    return st.fixed_dictionaries({
        "poly": st.one_of(text, text, form), "gens": st.sampled_from(["abc", "abc", "abc", None, "ab", "abcd", "bca"]), "perm": st.integers(0, 4),
        "actions": st.sampled_from([["findroot"], ["findroot", "sos"], ["findroot", "sos"], ["findroot", "sos"], ["sos"], []]),
        "methods": st.sampled_from([{"StructuralSOS": True, "LinearSOS": False}, {"StructuralSOS": True}, {"SymmetricSOS": True, "StructuralSOS": True}, {"StructuralSOS": True, "SymmetricSOS": True, "LinearSOS": False, "SDPSOS": False},
                                    {"LinearSOS": True}, {}, {"Nonsense": True}, None]),
        "configs": st.sampled_from([{}, {"StructuralSOS": {}, "LinearSOS": {"verbose": False}, "SDPSOS": {"verbose": False}}, None]),
        "tangents": st.sampled_from([None, None, None, "", "a-b", "a-b\nb-c", "a+\n\n(1/2).q\na2-bc", "x"]), "std": st.sampled_from([None, False, "sort", "factor", "expand"]),
        "hom": st.sampled_from([None, False, True]), "dehom": st.sampled_from([None, None, None, 0, 1, "1/2"]), "time": st.one_of(st.none(), st.integers(0, 10**13)),
        "kind": st.sampled_from(["ok", "ok", "ok", "ok", "ok", "ok", "latex", "latex", "no poly", "no sid", "perm", "type", "gens"]), "bad": st.integers(0, 5)})


@CHECK.sub("web", lambda: st.lists(_req(), min_size=1, max_size=4), quick=400, thorough=5000, shards=7, case_timeout=100,
           rule="a session of requests to the web service: responses and events")
def web_session(case, ctx):
    w = web()
    s = Session(w)
    try:
        for q in case:
            one(q, s, ctx)
    finally:
        s.close()


def payload(q, sid):
    r = {"poly": q["poly"], "sid": sid, "actions": list(q["actions"])}
    n = len(q["gens"] or "abc")
    if q["gens"] is not None:
        r["gens"] = q["gens"]
    if q["perm"] < len(PERMS[n]):
        r["perm"] = PERMS[n][q["perm"]]
    for k, name in (("methods", "methods"), ("configs", "configs"), ("tangents", "tangents"), ("std", "standardize_text"), ("hom", "homogenize"), ("dehom", "dehomogenize"), ("time", "timestamp")):
        if q[k] is not None:
            r[name] = q[k]
    return r


def one(q, s, ctx):
    from triples.utils.text_process import preprocess_text
    from triples.utils import latex_coeffs
    kind = q["kind"]
    r = payload(q, s.sid)
    syms = tuple(sp.Symbol(x) for x in (q["gens"] or "abc"))
    n = len(syms)
    gp = r.get("perm")
    gens = eval(gp, {"__builtins__": {}}) if isinstance(gp, str) else gp
    els = evalx.close_group([tuple(g) for g in gens]) if gens else [tuple((i + k) % n for i in range(n)) for k in range(n)]
    perm = PermutationGroup(*[Permutation(g) for g in gens]) if gens else None
    if kind == "no poly":
        del r["poly"]
    elif kind == "no sid":
        del r["sid"]
    elif kind == "perm":
        r["perm"] = ["[[5,6]]", "__import__('os')", "[[1,1,1]]", 7, "[", {"a": 1}][q["bad"]]
    elif kind == "type":
        r["poly"] = [7, None, ["a"], {"a": 1}, True, 1.5][q["bad"]]
    elif kind == "gens":
        r["gens"] = ["", 5, "aa", ["a", 5], "a b", "1"][q["bad"]]
    if kind == "latex":
        resp, events = s.post("/process/latexcoeffs", {k: r[k] for k in ("poly", "gens", "perm") if k in r})
        ctx.require(not events, lambda: "events %s for a table" % events, "latex:events")
        ctx.require(resp.status_code == 200, lambda: "%s is answered with status %d" % (r, resp.status_code), "latex:status")
        got = resp.get_json()
        ctx.require(isinstance(got, dict) and set(got) == {"coeffs"} and isinstance(got["coeffs"], str), lambda: "%s is answered with %s" % (r, got), "latex:answer")
        try:
            p, den = preprocess_text(q["poly"], gens=syms, perm=perm, return_type="frac")
        except Exception:
            p = None
        if q["poly"] in ("(1/2).q", "(3/2).p+a"):
            ctx.require(not got["coeffs"], lambda: "%r is evaluated: %s" % (q["poly"], got), "latex:code")
        if p is None:
            ctx.label("latex refused")
            ctx.require(not got["coeffs"], lambda: "%r is answered with the table %s" % (q["poly"], got), "latex:answer")
        elif n == 3 and (p.is_homogeneous or p.is_zero):
            ctx.label("latex")
            want = latex_coeffs(p, tabular=True, document=True, zeros="\\textcolor{lightgray}")
            ctx.require(got["coeffs"] == want, lambda: "the table of %r is %s, not %s" % (q["poly"], got["coeffs"], want), "latex:table")
        return
    resp, events = s.post("/process/preprocess", r)
    ctx.require(resp.status_code == 200 or 400 <= resp.status_code < 600, lambda: "status %d" % resp.status_code, "web:status")
    if kind not in ("ok",):
        ctx.label(kind)
        if resp.status_code != 200:
            ctx.require(not events, lambda: "the refused request %s has events %s" % (r, events), "web:refused")
        return
    ctx.require(resp.status_code == 200, lambda: "%s is answered with status %d" % (r, resp.status_code), "web:status")
    got = resp.get_json()
    if got is None or got == {}:
        ctx.label("refused")
        ctx.require(not events, lambda: "the refused request %s has events %s" % (r, events), "web:refused")
        ctx.require(q["poly"] not in GOOD + NEG, lambda: "%s is refused" % r, "web:valid")
        return
    ctx.require(q["poly"] not in BAD, lambda: "%s is answered with %s" % (r, str(got)[:300]), "web:invalid")
    ctx.require(set(got) == {"n", "txt", "triangle", "heatmap"} and isinstance(got["txt"], str) and isinstance(got["n"], int), lambda: "%s is answered with %s" % (r, str(got)[:300]), "web:answer")
    p, den = preprocess_text(q["poly"], gens=syms, perm=perm, return_type="frac")
    p, changed = transform(p, {"hom": bool(q["hom"]), "dehom": q["dehom"]})
    ctx.nontrivial(len(p.terms()) > 1)
    ctx.require(got["n"] == p.total_degree() if not p.is_zero else got["n"] >= 0, lambda: "%s: %s has degree %s" % (r, p, got["n"]), "web:degree")
    if changed or q["std"] or not den.is_one or p.is_zero and got["txt"] != q["poly"]:
        text_ok(ctx, got["txt"], p, syms, els, "web:text")
    else:
        ctx.require(got["txt"] == q["poly"], lambda: "%s: text %r" % (r, got["txt"]), "web:text")
    if n in (3, 4):
        table_ok(ctx, p, got["n"], got["triangle"], "web:triangle")
    colours_ok(ctx, p, got["heatmap"], "web:heatmap")
    # events
    due = (["rootangents"] if "findroot" in q["actions"] and q["tangents"] is None else []) + (["sos"] if "sos" in q["actions"] else [])
    ctx.require([e["name"] for e in events] == due, lambda: "%s: events %s, due %s" % (r, [e["name"] for e in events], due), "web:events")
    for e in events:
        v = e["args"][0] if isinstance(e["args"], list) else e["args"]
        ctx.require(v["timestamp"] == (q["time"] if q["time"] is not None else 0), lambda: "%s: timestamp %s" % (r, v["timestamp"]), "web:timestamp")
        if e["name"] == "rootangents":
            zeros_ok(ctx, v, p, syms, els)
            continue
        ctx.require(set(v) == {"latex", "txt", "formatted", "success", "timestamp"} and all(isinstance(v[k], str) for k in ("latex", "txt", "formatted")), lambda: "%s: event %s" % (r, v), "web:sos")
        ctx.label("proof" if v["success"] else "no proof")
        if not v["success"]:
            ctx.require(v["success"] is False and v["latex"] == v["txt"] == v["formatted"] == "", lambda: "%s: failure with texts %s" % (r, v), "web:sos")
            ctx.require(not (q["poly"] in SURE and not changed and q["methods"] in FULL and q["configs"] is not None and n == 3 and len(els) > 1), lambda: "%s: no proof" % r, "web:lost")
            continue
        ctx.require(v["success"] is True, lambda: "%s: success is %r" % (r, v["success"]), "web:sos")
        nonneg_ok(ctx, p, "web:sound")
        proof_ok(ctx, v, p, syms, els, "web:proof")


# proved by the named methods alone
SURE = ["s(a2-ab)", "s(a2)", "5", "a", "s(a)2-3s(ab)", "a^2-2ab+b^2", "s(a3-abc)", "(a-b)^2+c2"]
FULL = [{"StructuralSOS": True, "LinearSOS": False}, {"StructuralSOS": True}, {"SymmetricSOS": True, "StructuralSOS": True}, {"StructuralSOS": True, "SymmetricSOS": True, "LinearSOS": False, "SDPSOS": False}]


def zeros_ok(ctx, v, p, syms, els):
    ctx.require(set(v) == {"rootsinfo", "tangents", "timestamp"} and isinstance(v["rootsinfo"], str) and isinstance(v["tangents"], list), lambda: "event %s" % v, "web:roots")
    lines = v["rootsinfo"].split("\n")
    if lines[1:]:
        ctx.label("zeros")
    for line in lines[1:]:
        m = re.fullmatch(r"\(([^,()]+),([^,()]+),([^,()]+)\) = (.+)", line.strip())
        ctx.require(m, lambda: "line %r of %r" % (line, v["rootsinfo"]), "web:roots")
        x = [sp.Rational(t.strip()) if re.fullmatch(r"-?\d+(/\d+)?", t.strip()) else sp.Float(t.strip(), 30) for t in m.groups()[:3]]
        val = sp.Float(m.group(4), 30)
        ts = [c * sp.prod(y**e for y, e in zip(x, mm)) for mm, c in p.terms()]
        size = sum(abs(t) for t in ts)
        got = sp.N(sum(ts), 30)
        # coordinates are given with seven digits
        tol = 1e-5 * (1 + size) * max(1, p.total_degree())
        ctx.require(abs(got - val) <= tol, lambda: "%s is said to have the value %s at %s, it is %s" % (p, m.group(4), x, got), "web:value")
    for t in v["tangents"]:
        ctx.require(isinstance(t, str), lambda: "tangent %r" % (t,), "web:tangent")
        try:
            reader.read(t, syms, els)
        except (reader.Bad, RecursionError) as ex:
            ctx.fail("the tangent %r is not a polynomial text: %s" % (t, ex), "web:tangent")


# ---------------------------------------------------------------- text is not program code
CODE = ["__import__('pbt_canary')", "__import__(\"pbt_canary\")", "open('/nonexistent/pbt_canary')", "eval('__import__(\"pbt_canary\")')", "exec('import pbt_canary')", "().__class__", "(1/2).q", "(a).name", "(a+1).subs(a,2)",
        "(a).func", "(a).args", "a.name", "x.name", "(1).real", "(2).numerator", "1..real", "(a*b).args[0]", "(a).__class__.__mro__[1].__subclasses__()", "(a).__doc__", "(a+b).diff(a)", "(3).__add__(4)", "(5/7).p", "2.5.real",
        "a. q", "(a) .name", "(a).\tq", "s((a).name)", "p((1/2).q)", "\\frac{(1/2).q}{2}", "lambda:1", "[a for a in (1,2)]", "(a:=2)", "print(1)", "f'{a}'", "a if 1 else b", "globals()", "vars()", "dir()", "not a", "a is b", "a or b", "S('a')", "*a", "**a", "a=2", "{1:2}", "...", "a@b", "a;b", "a\nb=1"]
WRAP = ["%s", "a^2+%s", "(%s)*b", "s(a2)+%s", "%s-c", " %s ", "\\frac{%s}{2}", "sqrt(%s)"]


def restyle(s, k):
    """the same letters in other alphabets, which the language reads as the same names"""
    if k == 0:
        return s
    out = ""
    for i, ch in enumerate(s):
        if "a" <= ch <= "z" and (k != 3 or i % 2):
            out += chr({1: 0x1d41a, 2: 0xff41, 3: 0x1d44e + 26 * 2, 4: 0x1d5ba}[k] + ord(ch) - 97)
        else:
            out += ch
    return out


SEEN = []


def audit():
    if "hook" in WEB_AUDIT:
        return

    def hook(ev, args):
        if ev in ("open", "import", "os.system", "subprocess.Popen", "exec") and "pbt_canary" in str(args[:1]):
            if ev != "exec":
                SEEN.append((ev, str(args[0])[:80]))
    sys.addaudithook(hook)
    WEB_AUDIT["hook"] = hook


WEB_AUDIT = {}
ATTR = re.compile(r"(?<!\d)\.\s*[^\W\d]|\d\.\.\s*[^\W\d]|\d\.\d+\.\s*[^\W\d]")


@CHECK.sub("code", lambda: st.fixed_dictionaries({"c": st.sampled_from(CODE), "w": st.sampled_from(WRAP), "style": st.sampled_from([0, 0, 1, 1, 2, 3, 4]),
           "at": st.sampled_from(["manager", "latex", "web", "weblatex", "dehom", "webdehom", "tangents", "perm", "expr", "gens"]), "lib": st.booleans()}), quick=2500, thorough=30000, shards=3, case_timeout=30, hang=True,
           rule="program text in every field that takes text: never evaluated, attribute access always refused")
def code(case, ctx):
    from triples.gui.sos_manager import SOS_Manager
    from triples.utils.text_process import preprocess_text
    audit()
    del SEEN[:]
    text = case["w"] % restyle(case["c"], case["style"])
    at = case["at"]
    ctx.label(at)
    attr = bool(ATTR.search(case["c"]))
    ctx.nontrivial(attr or "canary" in text or case["style"] > 0)
    res = None
    syms = sp.symbols("a b c")
    if at in ("manager", "dehom", "latex", "expr"):
        try:
            if at == "manager":
                res = SOS_Manager.set_poly(text, render_grid=False)
            elif at == "dehom":
                res = SOS_Manager.set_poly("s(a2)c", dehomogenize=text, render_grid=False)
            elif at == "latex":
                res = SOS_Manager.latex_coeffs(text, tabular=True, document=True) or None
            else:
                res = preprocess_text(text, return_type="expr")
        except Exception as ex:
            ctx.require(at in ("expr", "latex"), lambda: "%s raises %s: %s" % (text, type(ex).__name__, ex), "code:raises")
    else:
        s = Session(web())
        r = {"poly": "s(a2)c", "sid": s.sid, "actions": ["sos"], "methods": {"StructuralSOS": True}, "configs": {}, "perm": "[[1,2,0]]"}
        try:
            if at == "web":
                r["poly"] = text
            elif at == "webdehom":
                r["dehomogenize"] = text
            elif at == "tangents":
                r["tangents"], r["actions"] = text + "\n" + text, ["findroot", "sos"]
            elif at == "perm":
                r["perm"] = text
            elif at == "gens":
                r["gens"] = "abc" + text
            if at == "weblatex":
                resp, ev = s.post("/process/latexcoeffs", {"poly": text, "perm": "[[1,2,0]]"})
            else:
                resp, ev = s.post("/process/preprocess", r)
            ctx.require(resp.status_code == 200 or resp.status_code >= 400, lambda: "status %d" % resp.status_code, "code:status")
            res = resp.get_json() if resp.status_code == 200 else None
            if at == "weblatex" and res is not None:
                res = res["coeffs"] or None
            if at in ("web", "weblatex") and resp.status_code != 200:
                ctx.require(at == "weblatex", lambda: "%r is answered with status %d" % (text, resp.status_code), "code:status")
        finally:
            s.close()
    ctx.require(not SEEN, lambda: "%r in %s is evaluated: %s" % (text, at, SEEN), "code:evaluated")
    if attr and at in ("manager", "latex", "expr", "web", "weblatex"):
        ctx.require(res is None, lambda: "%r in %s is evaluated to %s" % (text, at, str(res)[:200]), "code:attribute")
    if attr and at in ("dehom", "webdehom"):
        ctx.require(res is not None, lambda: "%r in %s: no answer" % (text, at), "code:dehomogenize")
        deg = res["degree"] if at == "dehom" else res["n"]
        ctx.require(deg == 3, lambda: "%r in %s is evaluated: degree %s" % (text, at, deg), "code:attribute")


# ---------------------------------------------------------------- the gradio page
def gradio():
    if "g" not in WEB_AUDIT:
        path = os.path.join(env.REPO, "gradio.app.py")
        spec = importlib.util.spec_from_file_location("gradio_app_under_test", path)
        m = importlib.util.module_from_spec(spec)
        with redirect_stdout(io.StringIO()):
            spec.loader.exec_module(m)
            WEB_AUDIT["g"] = m.GradioInterface()
    return WEB_AUDIT["g"]


@CHECK.sub("page", lambda: st.fixed_dictionaries({"poly": st.one_of(st.sampled_from(GOOD + NEG + BAD), st.sampled_from([1, 2, 3, 4, 5]).flatmap(lambda d: gen.hom_poly(3, d, 6, st.integers(-9, 9), min_terms=1)).map(
           lambda t: "+".join("(%d)" % c + "".join("*%s^%d" % (s, e) for s, e in zip("abc", m) if e) for c, m in t) or "0")), "m": st.sampled_from([["Structural"], ["Structural", "Symmetric"], []])}), quick=250, thorough=2500, shards=1, case_timeout=60,
           rule="the page with table, picture and proof")
def page(case, ctx):
    try:
        import gradio as _g  # noqa: F401
    except ImportError:
        ctx.skip("gradio is not installed")
    from triples.utils.text_process import preprocess_text
    g = gradio()
    with redirect_stdout(io.StringIO()):
        res = g.solve(case["poly"], case["m"])
    syms = sp.symbols("a b c")
    els = evalx.close_group([(1, 2, 0)])
    texts = {"latex": res[g.output_box_latex], "txt": res[g.output_box_txt], "formatted": res[g.output_box_formatted]}
    try:
        p, den = preprocess_text(case["poly"], gens=syms, return_type="frac")
    except Exception:
        p = None
    if case["poly"] in BAD or p is None:
        ctx.require(all(t == "No solution found." for t in texts.values()) and res[g.image] is None, lambda: "%r is answered with %s" % (case["poly"], texts), "page:invalid")
        return
    ctx.nontrivial(len(p.terms()) > 1)
    cells = re.findall(r'title="([^"]*)">([^<]*)</p>', res[g.coefficient_triangle])
    if p.is_homogeneous or p.is_zero:
        n = p.total_degree() if not p.is_zero else None
        if n is not None:
            ms = c12._monos(3, n)
            ctx.require(len(cells) == len(ms), lambda: "%d cells for degree %d" % (len(cells), n), "page:table")
            for m, (title, txt) in zip(ms, cells):
                want = "".join(s + (str(e) if e > 1 else "") for s, e in zip("abc", m) if e)
                ctx.require(title == want, lambda: "cell %s of %s is titled %r" % (m, p, title), "page:title")
                c = p.coeff_monomial(m)
                c12.shown(ctx, c, txt, lambda: "%s: entry for %s is %r, not %s" % (p, m, txt, c), "page:table")
    if all(t == "No solution found." for t in texts.values()):
        ctx.label("no proof")
        ctx.require(not (case["poly"] in SURE and case["m"]), lambda: "%r: no proof" % case["poly"], "page:lost")
        return
    ctx.label("proof")
    nonneg_ok(ctx, p, "page:sound")
    proof_ok(ctx, texts, p, syms, els, "page:proof")
