"""C27: calls are pure: no history dependence, no mutated arguments."""
import io
import json
import os
import pickle
import re
import signal
import sys
import types
from contextlib import redirect_stderr, redirect_stdout

import numpy as np
from hypothesis import strategies as st
import sympy as sp
from sympy.combinatorics import CyclicGroup, Permutation, PermutationGroup, SymmetricGroup

from ..core import Check

CHECK = Check("C27", rule="sequences of calls to the public operations, with fresh or shared argument objects, in one process; every call compared with the same call alone in a "
              "process of its own (a fork of the state after import), every argument and default value with its state before the call. "
              "Non-trivial: two calls of a sequence return a result and share an operation family or an argument object.")

a, b, c, d = sp.symbols("a b c d")
SYM = {s: sp.Symbol(s) for s in "abcdxyzuvw"}


# ---------------------------------------------------------------- descriptions of objects
def snap(x, depth=0):
    """a description of the value of an object, by its public behaviour"""
    if depth > 12:
        return "deep"
    if x is None or isinstance(x, (bool, int, str, bytes)):
        return "%s:%r" % (type(x).__name__, x)
    if isinstance(x, float):
        return "float:%r" % x
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return "np:%r" % x.item()
    if isinstance(x, np.ndarray):
        return "array%s%s" % (x.dtype, snap(x.tolist(), depth + 1))
    if isinstance(x, dict):
        return "%s{%s}" % (type(x).__name__, ", ".join("%s: %s" % (snap(k, depth + 1), snap(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return "%s(%s)" % (type(x).__name__, ", ".join(snap(v, depth + 1) for v in x))
    if isinstance(x, (set, frozenset)):
        return "set(%s)" % ", ".join(sorted(snap(v, depth + 1) for v in x))
    if isinstance(x, sp.Poly):
        return "Poly(%s, %s)" % (sorted((m, str(v)) for m, v in x.as_dict().items()), x.gens)
    if isinstance(x, sp.MatrixBase):
        return "Matrix%s%s" % (x.shape, [str(v) for v in x])
    if isinstance(x, PermutationGroup):
        return "Group%s" % [tuple(g.array_form) for g in x.generators]
    if isinstance(x, sp.Basic):
        return "%s:%s" % (type(x).__name__, x)
    name = type(x).__name__
    for cls, attrs in ATTRS.items():
        if any(k.__name__ == cls for k in type(x).__mro__):
            return "%s(%s)" % (name, ", ".join("%s=%s" % (k, snap(getattr(x, k), depth + 1)) for k in attrs if hasattr(x, k)))
    if hasattr(x, "iloc"):
        return "table(%s)" % snap([x[k].tolist() for k in x.columns if k != "time"], depth + 1)
    if callable(x):
        return "function"
    return re.sub(r" at 0x[0-9a-f]+", "", "%s:%s" % (name, str(x)))


ATTRS = {
    "Solution": ["problem", "solution", "ineq_constraints", "eq_constraints", "is_equal", "str_txt", "str_latex"],
    "MonomialManager": ["nvars", "perm_group", "is_homogeneous"],
    "RootTangent": ["expr", "symbols"],
    "RootsInfo": ["poly", "roots", "strict_roots", "tangents"],
    "Root": ["root", "uv_", "domain"],
    "Coeff": ["coeffs", "gens", "domain"],
    "GridPoly": ["poly", "size", "grid_coor", "grid_value", "grid_color"],
    "PolyReader": ["polys"],
}


# ---------------------------------------------------------------- pools of inputs
PROB = [
    ("a**2+b**2+c**2-a*b-b*c-c*a", [], []),
    ("a*(a-b)*(a-c)+b*(b-c)*(b-a)+c*(c-a)*(c-b)", ["a", "b", "c"], []),
    ("(a**2+b**2+c**2)**2-3*(a**3*b+b**3*c+c**3*a)", [], []),
    ("a**3+b**3+c**3-3*a*b*c", ["a", "b", "c"], []),
    ("a**4+b**4+c**4-a*b*c*(a+b+c)", [], []),
    ("a**2+b**2-2*a*b", [], []),
    ("x**2-2*x+1", [], []),
    ("x**4-4*x+3", [], []),
    ("a*b+1-a-b", ["1-a", "1-b"], []),
    ("2-a-b", ["a", "b"], ["a**2+b**2-2"]),
    ("a**2+b**2+c**2+d**2-a*b-b*c-c*d-d*a", [], []),
    ("-a**2-1", [], []),
    ("x+y+z-(x*y+y*z+z*x)", ["x", "y", "z", "4-(x*y+y*z+z*x+x*y*z)"], []),
    ("x*(y-z)**2+y*(z-x)**2+z*(x-y)**2", ["x", "y", "z"], []),
    ("a**2*b+b**2*c+c**2*a-3*a*b*c", ["a", "b", "c"], []),
    ("a+b-2", ["a", "b"], ["a*b-1"]),
    ("z*(x-y)**2", ["-3*(x+y)**2*(-z)"], []),
    ("(a+b)*(b+c)*(c+a)-8*a*b*c", ["a", "b", "c"], []),
    ("a**2+2*b**2-2*sqrt(2)*a*b", [], []),
    ("a**3*b+b**3*c+c**3*a-a*b*c*(a+b+c)", ["a", "b", "c"], []),
    ("a**4*b**2+a**2*b**4+1-3*a**2*b**2", [], []),
    ("b-a**2", ["b-a"], ["a*(1-a)"]),
    ("5", [], []),
    ("0", [], []),
]
CHEAP = [0, 1, 3, 5, 6, 13, 14, 17, 22, 0, 1]
METHODS = ["StructuralSOS", "LinearSOS", "SDPSOS", "SymmetricSOS"]
CONFIGS = [{}, {"LinearSOS": {}, "StructuralSOS": {}, "SDPSOS": {}, "SymmetricSOS": {}}, {"LinearSOS": {"quad_diff_order": 4, "verbose": False}}, {"LinearSOS": {"lift_degree_limit": 2, "preordering": "linear"}, "SDPSOS": {"degree_limit": 4}},
           {"SDPSOS": {"solver_options": {}, "allow_numer": 0}}, {"LinearSOS": {"linprog_options": {"method": "highs-ds", "options": {"presolve": True}}}}]
TEXTS = ["s(a2-ab)", "p(a+b)-8abc", "s(a)2-3s(ab)", "(a-b)2(b-c)2+a2", "\\sum a^3-3abc", "s(a/(b+c))-3/2", "a2+kb2-ab", "0", "s(a-b)", "sqrt(2)a-b", "a^x", "((a", "2.5a2b", "s(a4b-a2b2c)", "\\frac{a+b}{2}-c", "1/0", "p(a)s(a)"]
GROUPS = {3: [None, [[1, 2, 0]], [[1, 2, 0], [1, 0, 2]], [[0, 1, 2]], [[1, 0, 2]]], 4: [None, [[1, 2, 3, 0]], [[1, 0, 2, 3], [1, 2, 3, 0]], [[1, 0, 3, 2]]], 2: [None, [[1, 0]], [[0, 1]]]}


def expr(t):
    return sp.sympify(t, locals=SYM)


def group(g):
    return PermutationGroup(*[Permutation(x) for x in g])


class Pool:
    """arguments; a shared one is the same object for all calls of a sequence"""
    def __init__(self):
        self.objects, self.watch = {}, []

    def get(self, shared, key, make):
        key = json.dumps(key, default=str)
        if not shared:
            x = make()
        elif key in self.objects:
            x = self.objects[key]
        else:
            x = self.objects[key] = make()
        self.watch.append((key, x, snap(x)))
        return x


def container(kind, ts, names):
    es = [expr(t) for t in ts]
    if kind == "dict":
        return {e: e for e in es}
    if kind == "named":
        return {e: sp.Function(names)(sp.Integer(i)) for i, e in enumerate(es)}
    if kind == "tuple":
        return tuple(es)
    if kind == "poly":
        gens = sorted(set().union(*[e.free_symbols for e in es]), key=str)
        return [sp.Poly(e, *gens) for e in es]
    return es


def problem(o, get):
    t, ineq, eq = PROB[o["p"]]
    e = expr(t)
    gens = sorted(e.free_symbols.union(*[expr(x).free_symbols for x in ineq + eq]), key=str)
    poly = get(o["sh"], ["poly", t, o["poly"]], lambda: sp.Poly(e, *gens) if o["poly"] and gens else e)
    g = get(o["sh"], ["ineq", t, o["kind"]], lambda: container(o["kind"], ineq, "G"))
    h = get(o["sh"], ["eq", t, o["kind"]], lambda: container(o["kind"], eq, "H"))
    return poly, g, h


def _base(draw, pool=None):
    return {"p": draw(st.sampled_from(pool)) if pool else draw(st.integers(0, len(PROB) - 1)), "poly": draw(st.booleans()), "kind": draw(st.sampled_from(["list", "dict", "named", "tuple", "poly"])), "sh": draw(st.booleans())}


# ---------------------------------------------------------------- operations: description -> call
def op_sos(o, get):
    from triples.core.sum_of_squares import sum_of_squares
    poly, g, h = problem(o, get)
    kw = {}
    if o["mo"] is not None:
        kw["method_order"] = get(o["sh"], ["mo", o["mo"]], lambda: list(o["mo"]))
    if o["cfg"] is not None:
        kw["configs"] = get(o["sh"], ["cfg", o["cfg"]], lambda: json.loads(json.dumps(CONFIGS[o["cfg"]])))
    if not PROB[o["p"]][2] and o["short"]:
        return lambda: sum_of_squares(poly, g, **kw)
    return lambda: sum_of_squares(poly, g, h, **kw)


def op_method(o, get):
    import triples.core as core
    from triples.core.linsos import LinearSOS
    from triples.core.sdpsos import SDPSOS
    from triples.core.symsos import SymmetricSOS
    f = {"StructuralSOS": core.StructuralSOS, "LinearSOS": LinearSOS, "SDPSOS": SDPSOS, "SymmetricSOS": SymmetricSOS}[o["m"]]
    poly, g, h = problem(o, get)
    kw = {}
    n = len(poly.gens) if isinstance(poly, sp.Poly) else 0
    if o["sym"] and n in (2, 3) and o["m"] in ("LinearSOS", "SDPSOS"):
        e = poly.as_expr()
        ok = [x for x in GROUPS[n] if x and all(sp.expand(e - e.xreplace(dict(zip(poly.gens, [poly.gens[i] for i in y])))) == 0 for y in x)] if not PROB[o["p"]][1] and not PROB[o["p"]][2] else []
        if ok:
            kw["symmetry"] = get(o["sh"], ["sym", ok[0]], lambda: group(ok[0]))
    if o["opt"] and o["m"] == "LinearSOS":
        kw["tangents"] = get(o["sh"], ["tangents", o["opt"]], lambda: [[(a - b)**2], [(a + b - c)**2, (a - c)**2], [sp.Integer(1)]][o["opt"] - 1])
    if o["opt"] and o["m"] == "SDPSOS":
        kw["solver_options"] = get(o["sh"], ["solver"], lambda: {})
    return lambda: f(poly, g, h, **kw)


def op_rooted(o, get):
    """LinearSOS and root_tangents with the caller's record of zeros"""
    from triples.core.linsos import LinearSOS, root_tangents
    from triples.utils import findroot
    t = PROB[o["p"]][0]
    info = get(o["sh"], ["info", t], lambda: findroot(sp.Poly(expr(t), a, b, c)))
    if o["what"] == "tangents":
        return lambda: root_tangents(info)
    if o["what"] == "text":
        return lambda: [str(info), info.gui_description if not callable(info.gui_description) else info.gui_description(), info.nvars, info.is_centered]
    poly, g, h = problem(dict(o, poly=True), get)
    ts = get(o["sh"], ["ts", t], lambda: [a, b, (a - b)**2, a + b - c])
    if o["what"] == "prepared":
        return lambda: LinearSOS(poly, g, h, rootsinfo=info, tangents=[(a - b)**2, (b - c)**2])
    return lambda: LinearSOS(poly, g, h, rootsinfo=info)


def op_text(o, get):
    from triples.utils.text_process import degree_of_zero, pl, preprocess_text
    t = TEXTS[o["t"]]
    gens = get(o["sh"], ["gens", o["gens"]], lambda: tuple(SYM[x] for x in o["gens"]))
    n = len(o["gens"])
    gs = GROUPS[n][o["g"] % len(GROUPS[n])]
    perm = get(o["sh"], ["perm", n, gs], lambda: group(gs) if gs else None)
    kw = {"scientific_notation": o["sci"]} if o["sci"] is not None else {}
    if o["what"] == "deg":
        return lambda: degree_of_zero(t, gens=gens, perm=perm)
    if o["what"] == "pl":
        return lambda: pl(t)
    if o["what"] == "default":
        return lambda: preprocess_text(t)
    return lambda: preprocess_text(t, gens=gens, perm=perm, return_type=o["what"], **kw)


def op_read(o, get):
    from triples.utils import PolyReader
    texts = get(o["sh"], ["texts", o["ts"]], lambda: [TEXTS[i] for i in o["ts"]])
    def f():
        r = PolyReader(texts, ignore_errors=True, return_type=o["rt"])
        return [list(r), list(r), len(r)]
    return f


def op_show(o, get):
    from triples.utils import CyclicSum, latex_coeffs, poly_get_factor_form, poly_get_standard_form
    from triples.utils.text_process import coefficient_triangle
    t = PROB[o["p"]][0]
    poly = get(o["sh"], ["ternary", t], lambda: sp.Poly(expr(t), a, b, c))
    gs = GROUPS[3][o["g"]]
    perm = get(o["sh"], ["perm", 3, gs], lambda: group(gs) if gs else None)
    w = o["what"]
    if w == "table":
        return lambda: coefficient_triangle(poly, poly.total_degree()) if poly.is_homogeneous else None
    if w == "latex":
        return lambda: latex_coeffs(poly, tabular=True, document=True) if poly.is_homogeneous else None
    f = poly_get_standard_form if w == "standard" else poly_get_factor_form
    return (lambda: f(poly, perm)) if perm is not None else (lambda: f(poly))


def op_zeros(o, get):
    from triples.utils import findroot, findroot_resultant, kkt, nroots
    t = PROB[o["p"]][0]
    e = expr(t)
    gens = (a, b, c) if e.free_symbols <= {a, b, c} else sorted(e.free_symbols, key=str)
    poly = get(o["sh"], ["ternary", t, str(gens)], lambda: sp.Poly(e, *gens))
    if o["what"] == "resultant":
        return lambda: findroot_resultant(poly) if len(gens) == 3 and poly.is_homogeneous else None
    if o["what"] == "nroots":
        one = get(o["sh"], ["one", o["p"]], lambda: sp.Poly([1, -o["p"], 3, -2, 1 + o["p"] % 5], a))
        return lambda: [nroots(one, method="factor", real=True), nroots(one, method="numpy", nonnegative=True)]
    if o["what"] == "kkt":
        f = get(o["sh"], ["kktf", t], lambda: sp.Poly(a**2 + b**2 - o["p"] * a * b, a, b))
        h = get(o["sh"], ["kkth", t], lambda: [sp.Poly(a**2 + 2 * b**2 - 1, a, b)])
        return lambda: kkt(f, [], h, gens=(a, b)) if False else kkt(f, [], h)
    return lambda: findroot(poly, method=o["method"]) if len(gens) == 3 and poly.is_homogeneous and not poly.is_zero else None


def op_root(o, get):
    from triples.utils import Root, RootRational
    v = o["v"]
    vec = get(o["sh"], ["vec", v, o["alg"]], lambda: tuple([sp.sqrt(2) if o["alg"] else sp.Rational(v[0], 2)] + [sp.Integer(k) for k in v[1:]]))
    r = get(o["sh"], ["root", v, o["alg"]], lambda: Root(vec))
    poly = get(o["sh"], ["ternary", o["p"]], lambda: sp.Poly(expr(PROB[o["p"]][0]), a, b, c))
    w = o["what"]
    if w == "eval":
        return lambda: [r.eval(poly, rational=True), r.subs(a * b - c**2, (a, b, c))]
    if w == "span":
        return lambda: r.span(2)
    if w == "flags":
        return lambda: [r.is_corner, r.is_border, r.is_symmetric, r.is_centered, r.is_nontrivial, str(r), hash(r) == hash(Root(vec)), r == Root(vec)]
    if w == "set":
        return lambda: sorted(str(x) for x in {r, Root(vec), RootRational((1, 1, 1))})
    return lambda: [r.as_vec(3), r.n(10) if hasattr(r, "n") else None]


def op_mono(o, get):
    from triples.utils import MonomialManager, arraylize_np, arraylize_sp, generate_expr, generate_monoms, invarraylize
    gs = GROUPS[3][o["g"]]
    man = get(o["sh"], ["manager", gs, o["hom"]], lambda: MonomialManager(3, group(gs) if gs else None, is_homogeneous=o["hom"]))
    t = PROB[o["p"]][0]
    poly = get(o["sh"], ["ternary", t], lambda: sp.Poly(expr(t), a, b, c))
    kw, deg, w = {"symmetry": man}, o["d"], o["what"]
    if w == "list":
        return lambda: [generate_monoms(3, deg, **kw), man.length(deg), man.inv_monoms(deg), man.dict_monoms(deg)]
    if w == "base":
        return lambda: [man.base().inv_monoms(deg), man.inv_monoms(deg), man.copy().inv_monoms(deg), man.base().is_trivial]
    if w == "np":
        return lambda: arraylize_np(poly, expand_cyc=o["ec"], **kw)
    if w == "sp":
        return lambda: arraylize_sp(poly, expand_cyc=o["ec"], **kw)
    if w == "vec":
        return lambda: man.permute_vec(sp.Matrix(range(len(man.base().inv_monoms(deg)))), deg)
    vec = get(o["sh"], ["list", deg, gs, o["hom"]], lambda: list(range(1, 1 + MonomialManager(3, group(gs) if gs else None, is_homogeneous=o["hom"]).length(deg))))
    return lambda: invarraylize(vec, (a, b, c), deg, **kw)


def op_cyclic(o, get):
    from triples.utils import CyclicProduct, CyclicSum, SymmetricSum
    gs = GROUPS[3][o["g"]]
    e = expr(["a*(b-c)**2", "a", "a*b*c", "(a-b)**2*(a+b-c)", "a/(b+c)", "2"][o["e"]])
    syms = get(o["sh"], ["syms"], lambda: (a, b, c))
    perm = get(o["sh"], ["perm", 3, gs], lambda: group(gs) if gs else None)
    cls = {"sum": CyclicSum, "prod": CyclicProduct}[o["cls"]]
    rule = get(o["sh"], ["rule", o["e"]], lambda: {a: b, b: c, c: a} if o["e"] % 2 else {a: a + 1})
    def f():
        x = cls(e, syms, perm) if perm is not None else cls(e, syms)
        w = o["what"]
        if w == "print":
            return [str(x), sp.latex(x), sp.latex(1 / (1 + x)), str(x**2 * a)]
        if w == "switch":
            from triples.utils.expression.cyclic import CyclicExpr
            keep = CyclicExpr.PRINT_FULL, CyclicExpr.PRINT_WITH_PARENS
            try:
                CyclicExpr.PRINT_FULL, CyclicExpr.PRINT_WITH_PARENS = o["e"] % 2 == 0, o["e"] % 3 == 0
                return [str(x), sp.latex(x)]
            finally:
                CyclicExpr.PRINT_FULL, CyclicExpr.PRINT_WITH_PARENS = keep
        if w == "poly":
            return x.as_poly(a, b, c) if o["e"] != 4 else sp.together(x.doit())
        if w == "rule":
            return [x.xreplace(rule), x.subs(a, 2), sp.diff(x, b)]
        return [x.doit(), x.expand(), sp.factor(x.doit()), not x.args or x.func(*x.args) == x]
    return f


def op_solution(o, get):
    from triples.core.sum_of_squares import sum_of_squares
    poly, g, h = problem(dict(o, sh=False), get)
    sol = get(o["sh"], ["sol", o["p"], o["kind"], o["poly"], o["m"]], lambda: sum_of_squares(poly, g, h, method_order=[o["m"]]))
    if sol is None:
        return lambda: None
    w = o["what"]
    if w == "texts":
        return lambda: [sol.str_txt, sol.str_formatted, sol.str_latex, str(sol), sol._repr_latex_()]
    if w == "string":
        return lambda: [sol.to_string(mode=m) for m in ("latex", "txt", "formatted")]
    if w == "fraction":
        return lambda: [sol.as_fraction(), sol.as_eq(), sol.numerator, sol.multiplier]
    if w == "expr":
        return lambda: [sol.as_expr(), sol.gens, sol.is_ill, sol.is_equal]
    if w == "doit":
        return lambda: [sol.doit(), sol.signsimp(), sol.collect(a), sol.as_simple_solution(), sol.copy()]
    rule = get(o["sh"], ["solrule"], lambda: {a: SYM["u"], b: SYM["v"]})
    if w == "rename":
        return lambda: sol.xreplace(rule)
    return lambda: sol.rewrite_symmetry(sol.gens, CyclicGroup(len(sol.gens))) if len(sol.gens) == 3 else sol.dehomogenize(1) if False else None


def op_gui(o, get):
    from triples.gui.sos_manager import SOS_Manager
    gens = get(o["sh"], ["gens", "abc"], lambda: sp.symbols("a b c"))
    gs = GROUPS[3][o["g"]]
    perm = get(o["sh"], ["perm", 3, gs], lambda: group(gs) if gs else None)
    if o["what"] == "set":
        return lambda: SOS_Manager.set_poly(TEXTS[o["t"]], gens=gens, perm=perm, standardize_text=o["std"], homogenize=o["hom"], dehomogenize=o["dehom"], render_grid=o["grid"])
    poly = get(o["sh"], ["ternary", "gui", o["p"]], lambda: sp.Poly(expr(PROB[o["p"]][0]), a, b, c))
    ineq = get(o["sh"], ["guiineq"], lambda: [a, b, c])
    cfg = get(o["sh"], ["cfg", 1], lambda: json.loads(json.dumps(CONFIGS[1])))
    mo = get(o["sh"], ["mo", o["m"]], lambda: [o["m"]])
    return lambda: SOS_Manager.sum_of_squares(poly, ineq, [], method_order=mo, configs=cfg)


def op_batch(o, get):
    from triples.core.sum_of_squares import sum_of_squares_multiple
    texts = get(o["sh"], ["texts", o["ts"]], lambda: [TEXTS[i] for i in o["ts"]])
    ineq = get(o["sh"], ["guiineq"], lambda: [a, b, c])
    cfg = get(o["sh"], ["cfg", o["cfg"]], lambda: json.loads(json.dumps(CONFIGS[o["cfg"]])))
    mo = get(o["sh"], ["mo", o["m"]], lambda: [o["m"]])
    rd = get(o["sh"], ["reader", o["rd"]], lambda: {} if o["rd"] else {"return_type": "poly"})
    kw = {"configs": cfg} if o["use"] else {}
    return lambda: sum_of_squares_multiple(texts, ineq, [], method_order=mo, poly_reader_configs=rd, save_result=False, verbose_progress=False, **kw)


def op_matrix(o, get):
    from triples.sdp import congruence
    import triples.sdp.arithmetic as ar
    import triples.sdp.utils as ut
    n = 3
    rows = [[int(x) for x in o["rows"][3 * i:3 * i + 3]] for i in range(n)]
    M = get(o["sh"], ["M", o["rows"], o["psd"]], lambda: (sp.Matrix(rows) * sp.Matrix(rows).T) if o["psd"] else sp.Matrix(rows))
    v = get(o["sh"], ["v", o["rows"]], lambda: sp.Matrix(rows) * sp.Matrix([1, 2, -1]))
    A = get(o["sh"], ["A", o["rows"]], lambda: sp.Matrix(rows))
    w = o["what"]
    if w == "congruence":
        S = get(o["sh"], ["S", o["rows"]], lambda: sp.Matrix(rows) * sp.Matrix(rows).T)
        return lambda: congruence(S)
    if w == "separated":
        x0 = get(o["sh"], ["x0eq"], lambda: [[0, 2]])
        S2, v2 = get(o["sh"], ["S2", o["rows"]], lambda: sp.Matrix(2, 3, [1, 0, 1, 0, rows[0][0] or 1, 0])), get(o["sh"], ["v2", o["rows"]], lambda: sp.Matrix([2, rows[1][1]]))
        return lambda: [ar.solve_column_separated_linear(S2, v2), ar.solve_csr_linear(S2, v2, x0)]
    if w == "bilinear":
        S = get(o["sh"], ["S", o["rows"]], lambda: sp.Matrix(rows) * sp.Matrix(rows).T)
        return lambda: [ar.symmetric_bilinear(A, S), ar.matmul_multiple(sp.Matrix(1, 9, list(S)), A)]
    if w == "perturb":
        S = get(o["sh"], ["Sf", o["rows"]], lambda: sp.Matrix(rows) * sp.Matrix(rows).T + sp.eye(3) * sp.Float("1e-3"))
        return lambda: congruence(S)
    if w == "nullspace":
        return lambda: ar.solve_nullspace(A)
    if w == "linear":
        return lambda: ar.solve_csr_linear(A, v)
    if w == "columns":
        return lambda: ar.solve_undetermined_linear(A, v)
    return lambda: ar.matmul(M, A)


def op_sdp(o, get):
    from triples.sdp import SDPProblem
    k = o["k"]
    x0 = sp.Matrix([2 + k, 1, 1, 2])
    space = sp.Matrix([[1, 0], [0, 1], [0, 1], [o["e"], 0]])
    X = get(o["sh"], ["x0", k], lambda: {"A": x0[:, :]})
    Sp = get(o["sh"], ["sp", o["e"]], lambda: {"A": space[:, :]})
    M = get(o["sh"], ["sdpmats", k, o["e"]], lambda: {"A": (x0[:, :], space[:, :])})
    opts = get(o["sh"], ["solver"], lambda: {})
    free = get(o["sh"], ["free"], lambda: list(sp.symbols("u v")))
    def f():
        p = SDPProblem(M, free_symbols=free) if o["free"] else SDPProblem(M)
        ok = p.solve(solver_options=opts, verbose=False) if o["opt"] else p.solve()
        return [ok, p.dof, p.size if isinstance(p.size, (dict, tuple)) else str(p.size), p.S if ok else None, p.y if ok else None, p.decompositions if ok else None, p.as_params() if ok and hasattr(p, "as_params") else None]
    return f


def op_basis(o, get):
    from triples.core.linsos.basis import LinearBasisTangent, LinearBasisTangentEven, cross_exprs, quadratic_difference
    cls = LinearBasisTangentEven if o["even"] else LinearBasisTangent
    syms = get(o["sh"], ["syms"], lambda: (a, b, c))
    t = get(o["sh"], ["tangent", o["t"]], lambda: [sp.Integer(1), (a + b - c)**2, a * b, (a - b)**2][o["t"]])
    gs = GROUPS[3][o["g"]]
    from triples.utils import MonomialManager
    man = get(o["sh"], ["manager", gs, True], lambda: MonomialManager(3, group(gs) if gs else None))
    def f():
        if o["what"] == "quad":
            bs, mat = cls.generate_quad_diff(t, syms, o["d"], symmetry=man.perm_group, quad_diff_order=o["q"])
            return [[x.as_expr(syms) for x in bs], mat]
        if o["what"] == "cross":
            es = get(o["sh"], ["es"], lambda: quadratic_difference(syms))
            return [cross_exprs(es, syms, o["d"]), es]
        bs = cls.generate(t, syms, o["d"])
        return [[x.as_expr(syms) for x in bs], [x.degree() for x in bs], [x.as_poly(syms) for x in bs]]
    return f


def op_tools(o, get):
    from triples.utils import Coeff, identify_symmetry, pqr_cyc, pqr_ker, pqr_sym, rewrite_symmetry, verify_hom_cyclic, verify_is_symmetric
    t = PROB[o["p"]][0]
    poly = get(o["sh"], ["ternary", t], lambda: sp.Poly(expr(t), a, b, c))
    ex = get(o["sh"], ["rawexpr", t], lambda: expr(t))
    gs = GROUPS[3][o["g"]]
    perm = get(o["sh"], ["perm", 3, gs], lambda: group(gs) if gs else None)
    w = o["what"]
    if w == "coeff":
        return lambda: [Coeff(poly).is_cyclic(perm) if perm else None, Coeff(poly)((1, 1, 0)), Coeff(poly).degree() if hasattr(Coeff(poly), "degree") else None]
    if w == "identify":
        return lambda: identify_symmetry(poly)
    if w == "rewrite":
        return lambda: rewrite_symmetry(ex, (a, b, c), perm) if perm else None
    if w == "pqr":
        return lambda: pqr_sym(poly) if verify_is_symmetric(poly) else verify_hom_cyclic(poly)
    return lambda: [pqr_cyc(poly) if verify_hom_cyclic(poly)[1] else None, pqr_ker()]


def op_global(o, get):
    from triples.utils import rpa_polyopt
    from triples.utils import cancel_denominator, rationalize, rationalize_array, rationalize_bound, univariate_intervals
    w = o["what"]
    arr = get(o["sh"], ["arr", o["k"]], lambda: np.array([0.5, o["k"] / 3, 1 / (1 + o["k"])]))
    nums = get(o["sh"], ["nums", o["k"]], lambda: [sp.Rational(1, 2 + o["k"]), sp.Rational(3, 4), sp.Integer(o["k"])])
    if w == "array":
        return lambda: rationalize_array(arr, tol=10.0**-o["k"], reliable=o["e"] % 2 == 0)
    if w == "cancel":
        return lambda: cancel_denominator(nums)
    if w == "bound":
        rs = get(o["sh"], ["rs"], lambda: [0.1, 0.01, 0.001])
        return lambda: list(rationalize_bound(o["k"] / 7 + 0.1, direction=1, roundings=rs, compulsory=True))
    if w == "intervals":
        ps = get(o["sh"], ["ps", o["k"]], lambda: [sp.Poly(a**2 - o["k"], a), sp.Poly(a**3 - 3 * a + 1, a)])
        return lambda: univariate_intervals(ps)
    if w == "rational":
        return lambda: rationalize(o["k"] / 7, rounding=1e-2, reliable=True)
    f = get(o["sh"], ["rpaf", o["k"]], lambda: sp.Poly(a**2 - o["k"] * a * b + b, a, b))
    if w == "parts":
        from triples.utils.roots.monotonic_opt import poly_as_dm
        at = get(o["sh"], ["rpaat", o["e"]], lambda: [-1, sp.Rational(o["e"], 2)])
        return lambda: poly_as_dm(f, at)
    g = get(o["sh"], ["rpag", o["e"]], lambda: [[], [sp.Poly(a - b + sp.Rational(1, 4), a, b)], [sp.Poly(2 * a - 1, a, b)], [sp.Poly(a + b - 1, a, b), sp.Poly(b - a, a, b)]][o["e"]])
    h = get(o["sh"], ["rpah", o["k"]], lambda: [sp.Poly(a + b - 1, a, b)] if o["k"] % 2 else [])
    box = get(o["sh"], ["rpabox", o["k"]], lambda: [[0, 0], [1, 1 + o["k"] % 3]])

    def optimum():
        np.random.seed(0)
        return list(rpa_polyopt(f, g, h, a=box[0], b=box[1], max_iter=40))
    return optimum


def op_fault(o, get):
    """calls which raise errors or are refused"""
    from triples.core.linsos import LinearSOS
    from triples.core.sum_of_squares import sum_of_squares
    from triples.sdp import SDPProblem
    from triples.sdp.utils import indented_print
    from triples.utils import CyclicSum, preprocess_text
    k = o["what"]
    e, ineq = get(o["sh"], ["faulte"], lambda: expr(PROB[0][0])), get(o["sh"], ["faultineq"], lambda: [a, b, c])
    def printed():
        out = io.StringIO()
        with redirect_stdout(out):
            try:
                with indented_print(indent=o["n"], verbose=o["n"] != 3):
                    print("x")
                    if o["n"] % 2:
                        raise KeyError("y")
            except KeyError:
                pass
            print("z")
        return out.getvalue()
    return {"method": lambda: sum_of_squares(e, ineq, method_order=["StructuralSOS"][o["n"] % 2:] + ["Nonsense"]),
            "config": lambda: sum_of_squares(e, ineq, method_order=["LinearSOS"], configs={"LinearSOS": {"nonsense": o["n"]}}),
            "option": lambda: LinearSOS(e, ineq, preordering="nonsense", linprog_options={"method": "nonsense"}),
            "type": lambda: sum_of_squares(["a", None, 1.5, {}][o["n"]], ineq),
            "gens": lambda: preprocess_text("a+b", gens=(a, a)),
            "sdp": lambda: SDPProblem({"A": (sp.Matrix([1, 0, 0]), sp.Matrix([1, 2]))}).solve(),
            "infinite": lambda: sum_of_squares(e / (a - a + [0, 1, 2, 3][o["n"]]), ineq, method_order=["StructuralSOS"]),
            "cyclic": lambda: CyclicSum(a, (a, b), PermutationGroup(Permutation([1, 2, 0]))),
            "print": printed}[k]


def _i(n):
    return st.integers(0, n - 1)


OPS = {
    "fault": (op_fault, lambda dr: {"n": dr(_i(4)), "sh": dr(st.booleans()), "what": dr(st.sampled_from(["method", "config", "option", "type", "gens", "sdp", "infinite", "cyclic", "print"]))}),
    "sos": (op_sos, lambda dr: dict(_base(dr), mo=dr(st.sampled_from([["StructuralSOS"], ["SymmetricSOS", "StructuralSOS"], ["LinearSOS"], ["StructuralSOS", "LinearSOS"], ["SDPSOS"], None])),
                                    cfg=dr(st.one_of(st.none(), _i(len(CONFIGS)))), short=dr(st.booleans()))),
    "method": (op_method, lambda dr: dict(_base(dr), m=dr(st.sampled_from(METHODS)), sym=dr(st.booleans()), opt=dr(_i(4)))),
    "rooted": (op_rooted, lambda dr: dict(_base(dr, [0, 2, 3, 4, 14, 17, 19]), what=dr(st.sampled_from(["tangents", "text", "solve", "solve", "prepared"])))),
    "text": (op_text, lambda dr: {"t": dr(_i(len(TEXTS))), "gens": dr(st.sampled_from(["abc", "abc", "ab", "abcd", "xyz"])), "g": dr(_i(5)), "sh": dr(st.booleans()), "sci": dr(st.sampled_from([None, True, False])),
                                  "what": dr(st.sampled_from(["poly", "expr", "frac", "deg", "pl", "default"]))}),
    "read": (op_read, lambda dr: {"ts": dr(st.lists(_i(len(TEXTS)), min_size=1, max_size=4)), "rt": dr(st.sampled_from(["poly", "expr", "frac"])), "sh": dr(st.booleans())}),
    "show": (op_show, lambda dr: {"p": dr(st.sampled_from([0, 1, 2, 3, 4, 5, 14, 17, 18, 19])), "g": dr(_i(5)), "sh": dr(st.booleans()), "what": dr(st.sampled_from(["table", "latex", "standard", "factor"]))}),
    "zeros": (op_zeros, lambda dr: {"p": dr(_i(22)), "sh": dr(st.booleans()), "method": dr(st.sampled_from(["nsolve", "bfgs"])), "what": dr(st.sampled_from(["resultant", "findroot", "findroot", "nroots", "kkt"]))}),
    "root": (op_root, lambda dr: {"v": dr(st.lists(st.integers(-1, 3), min_size=3, max_size=3)), "alg": dr(st.booleans()), "p": dr(st.sampled_from([0, 2, 4, 18])), "sh": dr(st.booleans()), "what": dr(st.sampled_from(["eval", "span", "flags", "set", "vec"]))}),
    "mono": (op_mono, lambda dr: {"g": dr(_i(5)), "hom": dr(st.booleans()), "p": dr(st.sampled_from([0, 1, 2, 3, 14])), "d": dr(st.integers(0, 5)), "ec": dr(st.booleans()), "sh": dr(st.sampled_from([True, True, False])),
                                  "what": dr(st.sampled_from(["list", "base", "np", "sp", "vec", "inv"]))}),
    "cyclic": (op_cyclic, lambda dr: {"g": dr(_i(5)), "e": dr(_i(6)), "cls": dr(st.sampled_from(["sum", "sum", "prod"])), "sh": dr(st.booleans()), "what": dr(st.sampled_from(["print", "print", "switch", "poly", "rule", "doit"]))}),
    "solution": (op_solution, lambda dr: dict(_base(dr, CHEAP), sh=dr(st.sampled_from([True, True, False])), m=dr(st.sampled_from(["StructuralSOS", "StructuralSOS", "LinearSOS"])), what=dr(st.sampled_from(["texts", "string", "fraction", "expr", "doit", "rename", "sym"])))),
    "gui": (op_gui, lambda dr: {"t": dr(_i(len(TEXTS))), "g": dr(_i(5)), "sh": dr(st.booleans()), "std": dr(st.sampled_from([None, "sort", "factor", "expand"])), "hom": dr(st.booleans()), "dehom": dr(st.sampled_from([None, None, 1, "1/2"])),
                                "grid": dr(st.sampled_from([False, False, True])), "p": dr(st.sampled_from([0, 1, 3, 14, 17])), "m": dr(st.sampled_from(["StructuralSOS", "SymmetricSOS"])), "what": dr(st.sampled_from(["set", "set", "solve"]))}),
    "batch": (op_batch, lambda dr: {"ts": dr(st.lists(_i(len(TEXTS)), min_size=1, max_size=3)), "cfg": dr(_i(len(CONFIGS))), "m": dr(st.sampled_from(["StructuralSOS", "SymmetricSOS"])), "rd": dr(st.booleans()), "use": dr(st.booleans()), "sh": dr(st.booleans())}),
    "matrix": (op_matrix, lambda dr: {"rows": dr(st.lists(st.integers(-2, 2), min_size=9, max_size=9)), "psd": dr(st.booleans()), "sh": dr(st.booleans()), "what": dr(st.sampled_from(["congruence", "separated", "bilinear", "perturb", "nullspace", "linear", "columns", "matmul"]))}),
    "sdp": (op_sdp, lambda dr: {"k": dr(st.integers(-3, 3)), "e": dr(st.integers(-1, 1)), "free": dr(st.booleans()), "opt": dr(st.booleans()), "sh": dr(st.booleans())}),
    "basis": (op_basis, lambda dr: {"t": dr(_i(4)), "g": dr(_i(4)), "d": dr(st.integers(1, 5)), "q": dr(st.sampled_from([0, 2, 4, 8])), "even": dr(st.booleans()), "sh": dr(st.booleans()), "what": dr(st.sampled_from(["quad", "quad", "gen", "cross"]))}),
    "tools": (op_tools, lambda dr: {"p": dr(st.sampled_from([0, 1, 2, 3, 4, 14, 17, 19])), "g": dr(_i(5)), "sh": dr(st.booleans()), "what": dr(st.sampled_from(["coeff", "identify", "rewrite", "pqr", "pqr cyc"]))}),
    "global": (op_global, lambda dr: {"k": dr(st.integers(0, 6)), "e": dr(_i(4)), "sh": dr(st.booleans()), "what": dr(st.sampled_from(["array", "cancel", "bound", "intervals", "rational", "parts", "optimum", "optimum"]))}),
}


# ---------------------------------------------------------------- running
def defaults():
    """mutable default values of the functions of the library, by name"""
    out, seen = {}, set()

    def visit(name, f):
        while isinstance(f, (classmethod, staticmethod)):
            f = f.__func__
        if isinstance(f, property):
            return
        while hasattr(f, "__wrapped__"):
            look(name, f)
            f = f.__wrapped__
        look(name, f)

    def look(name, f):
        if not isinstance(f, types.FunctionType) or id(f) in seen:
            return
        seen.add(id(f))
        names = f.__code__.co_varnames[:f.__code__.co_argcount]
        vals = dict(zip(names[len(names) - len(f.__defaults__ or ()):], f.__defaults__ or ()))
        vals.update(f.__kwdefaults__ or {})
        for k, v in vals.items():
            if isinstance(v, (list, dict, set, np.ndarray)) and "cache" not in k and "memo" not in k and not k.startswith("_"):
                out["%s(%s)" % (name, k)] = v

    for mn in sorted(m for m in sys.modules if m == "triples" or m.startswith("triples.")):
        for k, v in list(vars(sys.modules[mn]).items()):
            if getattr(v, "__module__", None) and str(v.__module__).startswith("triples"):
                if isinstance(v, type):
                    for k2, v2 in list(vars(v).items()):
                        visit("%s.%s" % (k, k2), v2)
                else:
                    visit(k, v)
    S = sys.modules.get("triples.core.sum_of_squares")
    for k in ("DEFAULT_CONFIGS", "METHOD_ORDER"):
        if S is not None and hasattr(S, k):
            out[k] = getattr(S, k)
    return out


def settings():
    """settings of the process which decide what later calls show"""
    import builtins
    import mpmath
    from triples.utils import CyclicProduct, CyclicSum
    return {"print": builtins.print, "stdout": sys.stdout, "precision": mpmath.mp.dps, "directory": os.getcwd(),
            "switches": [getattr(k, n, None) for k in (CyclicSum, CyclicProduct) for n in ("PRINT_FULL", "PRINT_WITH_PARENS")]}


def perform(ops):
    """results of the calls, one after the other, in this process"""
    pool, out = Pool(), []
    dv = defaults()
    before = {k: snap(v) for k, v in dv.items()}
    for name, o in ops:
        pool.watch = []
        state = settings()
        try:
            f = OPS[name][0](o, pool.get)
            try:
                res = "returned " + snap(f())
            except Exception as e:
                res = "raised %s: %s" % (type(e).__name__, str(e)[:200])
        except Exception as e:
            import traceback
            res = "HARNESS %s" % traceback.format_exc()[-1500:]
        changed = ["%s: %s -> %s" % (k, s[:300], snap(x)[:300]) for k, x, s in pool.watch if snap(x) != s]
        dflt = ["%s: %s -> %s" % (k, before[k][:200], snap(v)[:200]) for k, v in dv.items() if snap(v) != before[k]]
        before = {k: snap(v) for k, v in dv.items()}
        now = settings()
        dflt += ["%s: %r -> %r" % (k, state[k], now[k]) for k in state if now[k] != state[k]]
        out.append((res, changed, dflt))
    return out


READY = []


def ready():
    """load everything once, without calling the library, so that forks start with the state after import"""
    if READY:
        return
    with redirect_stdout(io.StringIO()), redirect_stderr(io.StringIO()):
        import triples.core
        import triples.core.sdpsos
        import triples.core.symsos
        import triples.gui.sos_manager
        import triples.sdp
        import scipy.optimize
        import pandas
        try:
            import clarabel
        except ImportError:
            pass
        import mpmath
        x = sp.Poly((a + b + c)**2 * (a - b), a, b, c)
        str(x), sp.latex(x.as_expr()), sp.factor_list(x), sp.groebner([a**2 - b, a * b - 1], a, b), sp.nsolve(a**2 - 2, a, 1), sp.Matrix([[1, 2], [3, 5]]).rref(), sp.lambdify((a, b), a * b)(1, 2)
        sp.Poly(a**3 - 3 * a + 1, a).nroots(), sp.Poly(a - sp.sqrt(2) * b, a, b, extension=True).domain, sp.together(1 / a + 1 / b), sp.resultant(a**2 - b, a - b, a), sp.rootof(a**5 - a + 1, 0).n()
        scipy.optimize.linprog([1], A_eq=[[1]], b_eq=[1])
    READY.append(1)


def forked(ops, limit):
    """perform in a new process; None if it takes too long"""
    ready()
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(limit)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            data = pickle.dumps(perform(ops))
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


ALONE = {}


def alone(op):
    key = json.dumps([op[0], {k: v for k, v in op[1].items() if k != "sh"}], sort_keys=True)
    if key not in ALONE:
        if len(ALONE) > 3000:
            ALONE.clear()
        got = forked([(op[0], dict(op[1], sh=False))], 20)
        ALONE[key] = got[0] if got else None
    return ALONE[key]


@st.composite
def _sequence(draw, families):
    k = draw(st.integers(2, 7))
    some = draw(st.lists(st.sampled_from(families), min_size=1, max_size=4, unique=True))
    out = []
    for _ in range(k):
        how = draw(st.integers(0, 5)) if out else 5
        if how == 0:
            # the same call again
            name, o = draw(st.sampled_from(out))
            out.append([name, dict(o)])
        elif how <= 2:
            # a similar call, which differs in one or two fields
            name, o = draw(st.sampled_from(out))
            new, keys = OPS[name][1](draw), sorted(o)
            o = dict(o)
            for key in draw(st.lists(st.sampled_from(keys), min_size=1, max_size=2)):
                o[key] = new[key]
            out.append([name, o])
        else:
            name = draw(st.sampled_from(some))
            out.append([name, OPS[name][1](draw)])
    return out


def compare(case, ctx):
    seq = [(n, o) for n, o in case]
    got = forked(seq, 40)
    if got is None:
        ctx.skip("slow")
    for (n, o), (res, changed, dflt) in zip(seq, got):
        if res.startswith("HARNESS"):
            raise RuntimeError(res)
        ctx.label(n, n + (" raised" if res.startswith("raised") else ""))
        ctx.require(not changed, lambda: "%s %s changed its argument %s" % (n, o, changed[0]), "argument:" + n)
        ctx.require(not dflt, lambda: "%s %s changed the default value or setting %s" % (n, o, dflt[0]), "default:" + n)
    ctx.nontrivial(len(set(n for n, o in seq)) < len(seq) and any(r[0].startswith("returned") and r[0] != "returned None:None" for r in got))
    for i, ((n, o), (res, changed, dflt)) in enumerate(zip(seq, got)):
        ref = alone((n, o))
        if ref is None:
            continue
        if ref[0].startswith("HARNESS"):
            raise RuntimeError(ref[0])
        ctx.require(ref[0] == res, lambda: "call %d, %s %s, %s; alone it %s" % (i + 1, n, o, diff(res, ref[0]), diff(ref[0], res)), "history:" + n)
        ctx.require(not ref[1] and not ref[2], lambda: "%s %s changed %s" % (n, o, ref[1] + ref[2]), "argument:" + n)


def diff(x, y):
    k = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
    return x if len(x) < 300 else "%s ... %s" % (x[:40], x[max(0, k - 60):k + 200])


SOLVE = ["sos", "method", "rooted", "solution", "gui", "batch", "basis", "zeros", "fault"]
LIGHT = ["text", "read", "show", "root", "mono", "cyclic", "matrix", "tools", "global", "basis", "sdp", "solution", "fault"]


@CHECK.sub("solvers", lambda: _sequence(SOLVE), quick=500, thorough=9000, shards=6, case_timeout=170, rule="2-6 calls of solvers, zero finders, front end and batch operations")
def solvers(case, ctx):
    compare(case, ctx)


@CHECK.sub("tools", lambda: _sequence(LIGHT), quick=1500, thorough=25000, shards=4, case_timeout=120, rule="2-6 calls of notation, representation, monomial, matrix, zero and certificate operations")
def tools(case, ctx):
    compare(case, ctx)


@CHECK.sub("mixed", lambda: _sequence(sorted(OPS)), quick=400, thorough=7000, shards=4, case_timeout=170, rule="2-6 calls of any operations")
def mixed(case, ctx):
    compare(case, ctx)
