"""C25: batch runs report every problem faithfully."""
import copy
import math
import os
import tempfile

from hypothesis import strategies as st
import sympy as sp

from .. import gen, ineq
from ..core import Check

CHECK = Check("C25", rule="lists of 0-7 problems mixing provable, unprovable, malformed, zero, constant, non-polynomial and erroring ones, as texts or "
              "polynomials, inline or in files, with random options. Oracle: the same problem alone, read and solved by direct calls. "
              "Non-trivial: at least two rows with different statuses.")
S = sp.symbols("a b c")
BAD = ["a+", "((a", "1/a", "a^(1/2)", "a!b", "s(a2", "a=b", "a^-1", "{", "a/b", "*a", "a,b", "import os", "a<b", "s(a)/p(a)", "[a]", "a..b", ")("]
GOOD = ["s(a2-ab)", "s(a2)", "s(a3-abc)", "s(a2)2-3s(a3b)", "(a-b)^2+c2", "s(a(a-b)(a-c))", "a2b2+1-ab", "p(a+b)-8abc", "s(a4)-abcs(a)", "5", "a", "\\frac{a^2}{3}+b^2", "s(a)2-3s(ab)"]
NEG = ["a^2-b^2", "-5", "s(ab-a2)", "-s(a2)", "a-b", "8abc-p(a+b)"]
ZERO = ["0", "a-a", "s(a-b)", "s(a(b-c))"]
PARAM = ["a2+x b2", "x", "a2+b2+y"]


def _problem():
    t = st.sampled_from([2, 2, 3, 4]).flatmap(lambda d: gen.hom_poly(3, d, 4, st.integers(-3, 4), min_terms=1))
    poly = st.fixed_dictionaries({"t": t, "dom": st.sampled_from(["ZZ", "ZZ", "RR", "I", "EX"]), "sq": st.booleans()}).map(lambda x: ["poly", x])
    text = lambda l: st.sampled_from(l)
    line = st.one_of(text(GOOD), text(GOOD), text(BAD), text(NEG), text(ZERO), text(PARAM))
    pad = st.sampled_from(["", "", "", " ", "\t", "  "])
    return st.one_of(st.tuples(line, pad, pad).map(lambda x: ["text", x[1] + x[0] + x[2]]), poly, st.sampled_from(["", " ", "\t", "\n"]).map(lambda x: ["text", x]),
                     st.tuples(line, pad, pad).map(lambda x: ["text", x[1] + x[0] + x[2]]))


def _case():
    return st.fixed_dictionaries({
        "p": st.lists(_problem(), max_size=7), "src": st.sampled_from(["list", "list", "tuple", "file"]),
        "ineq": st.sampled_from(["none", "list", "dict", "default"]), "methods": st.sampled_from([["StructuralSOS"], ["StructuralSOS", "SymmetricSOS"], ["SymmetricSOS", "StructuralSOS"], ["StructuralSOS", "nonsense"], []]),
        "configs": st.sampled_from(["default", "empty", "partial", "full"]), "reader": st.sampled_from(["default", "empty", "gens", "ignore", "perm"]),
        "save": st.sampled_from(["no", "no", "dir", "csv", "true", "bare"]), "how": st.sampled_from(["default", "str_txt", "callable"]), "again": st.booleans()})


def poly_of(x):
    f = {}
    for c, m in x["t"]:
        f[tuple(m)] = f.get(tuple(m), 0) + c
    if x["sq"]:
        f = ineq.pmul({m: sp.Integer(c) for m, c in f.items() if c}, {m: sp.Integer(c) for m, c in f.items() if c})
    e = sum((sp.Integer(c) * sp.prod(v**i for v, i in zip(S, m)) for m, c in f.items()), sp.S(0))
    if x["dom"] == "RR":
        return sp.Poly(e, *S, domain="RR")
    if x["dom"] == "I":
        return sp.Poly(e + sp.I * S[0]**2, *S)
    if x["dom"] == "EX":
        return sp.Poly(e + sp.sqrt(2) * S[1]**2, *S)
    return sp.Poly(e, *S)


def nan(x):
    return x is None or (isinstance(x, float) and math.isnan(x))


def solved(kw, poly):
    """status, method and value of a direct call"""
    from triples.core import sum_of_squares
    try:
        r = sum_of_squares(poly, **kw)
    except Exception:
        return "error", None, None
    if r is None:
        return "fail", None, None
    return ("success" if r.is_equal else "inaccurate"), r.method, r


@CHECK.sub("batch", _case, quick=520, thorough=10000, shards=8, case_timeout=110, rule="one or two batch calls compared with the problems one by one")
def batch(case, ctx):
    from triples.core import sum_of_squares
    from triples.core.sum_of_squares import sum_of_squares_multiple, DEFAULT_CONFIGS, METHOD_ORDER
    from triples.utils import preprocess_text
    probs = [poly_of(x) if k == "poly" else x for k, x in case["p"]]
    if case["src"] == "file":
        probs = [p for p in probs if isinstance(p, str)]
    tmp = tempfile.mkdtemp(prefix="c25_")
    here = os.getcwd()
    os.chdir(tmp)
    try:
        run(case, ctx, probs, tmp, sum_of_squares_multiple, DEFAULT_CONFIGS, preprocess_text, METHOD_ORDER)
    finally:
        os.chdir(here)
        for root, dirs, files in os.walk(tmp, topdown=False):
            for f in files:
                os.unlink(os.path.join(root, f))
            os.rmdir(root)


def run(case, ctx, probs, tmp, multiple, defaults, preprocess_text, method_order):
    defaults0, order0 = copy.deepcopy(defaults), list(method_order)
    methods = list(case["methods"])
    kw = {"method_order": methods, "verbose_progress": False}
    g = {"none": None, "list": list(S), "dict": {s: sp.Symbol("G%d" % i) for i, s in enumerate(S)}, "default": None}[case["ineq"]]
    if g is not None:
        kw["ineq_constraints"] = g
    cfg = {"default": None, "empty": {}, "partial": {"SymmetricSOS": {}}, "full": {k: {} for k in defaults}}[case["configs"]]
    if cfg is not None:
        kw["configs"] = cfg
    rd = {"default": None, "empty": {}, "gens": {"gens": sp.symbols("a b c x")}, "ignore": {"ignore_errors": True},
          "perm": {"perm": sp.combinatorics.SymmetricGroup(3)}}[case["reader"]]
    if rd is not None:
        kw["poly_reader_configs"] = rd
    save = {"no": False, "dir": tmp, "csv": os.path.join(tmp, "sub", "out.csv"), "true": True, "bare": "out.csv"}[case["save"]]
    kw["save_result"] = save
    how = {"default": "str_formatted", "str_txt": "str_txt", "callable": None}[case["how"]]
    if case["how"] == "str_txt":
        kw["save_solution_method"] = "str_txt"
    if case["how"] == "callable":
        kw["save_solution_method"] = lambda s: "none" if s is None else "proof of degree %d" % s.problem.total_degree() if isinstance(getattr(s, "problem", None), sp.Poly) else "proof"
    src = probs if case["src"] == "list" else tuple(probs)
    if case["src"] == "file":
        src = "problems.txt"
        with open(src, "w") as f:
            f.write("\n".join(probs))
    snap = [copy.deepcopy(x) for x in (g, cfg, rd, methods)]
    names = dict(cfg) if cfg else None
    df = multiple(src, **kw)
    for old, new, what in zip(snap, (g, cfg, rd, methods), ("constraints", "configs", "reader options", "method order")):
        ctx.require(old == new, lambda: "the caller's %s changed from %s to %s" % (what, old, new), "args")
    ctx.require(defaults == defaults0 and list(method_order) == order0, "the default configuration changed", "args:default")
    ctx.require(list(src if case["src"] != "file" else probs) == probs, "the list of problems changed", "args")

    # expected rows
    want = []
    lines = probs
    for p in lines:
        if isinstance(p, str):
            t = p.strip()
            parts = t.split("\n") if t else []
            want += [x.strip() for x in parts if x.strip()]
        else:
            want.append(p)
    ctx.require(len(df) == len(want), lambda: "%d rows for %s" % (len(df), want), "rows")
    ctx.require(list(df.index) == list(range(1, len(want) + 1)), lambda: "index %s" % list(df.index), "rows:index")
    for col in ("problem", "deg", "status", "solution", "method", "time"):
        ctx.require(col in df.columns, lambda: "columns %s" % list(df.columns), "columns")
    rkw = {k: v for k, v in (rd or {}).items() if k != "ignore_errors"}
    skw = {"method_order": methods, "configs": {k: ({"verbose": False} if k in ("LinearSOS", "SDPSOS") else {}) for k in defaults}}
    if g is not None:
        skw["ineq_constraints"] = g
    statuses, rows, exp = set(), df.to_dict("records"), []
    for p, row in zip(want, rows):
        ctx.require(type(row["problem"]) is type(p) and row["problem"] == p, lambda: "row of %r is %r" % (p, row["problem"]), "rows:problem")
        poly = p
        if isinstance(p, str):
            try:
                poly = preprocess_text(p, **dict({"gens": S}, **rkw))
            except Exception:
                poly = None
        if poly is None:
            ctx.require(row["status"] == "invalid" and nan(row["solution"]) and nan(row["method"]) and nan(row["time"]), lambda: "row of invalid %r: %s" % (p, row), "invalid")
            statuses.add("invalid")
            exp.append(None)
            continue
        status, method, sol = solved(skw, poly)
        exp.append(sol)
        statuses.add(status)
        ctx.require(row["status"] == status, lambda: "row of %r has status %s, alone it is %s" % (p, row["status"], status), "status")
        ctx.require(row["deg"] == poly.total_degree(), lambda: "row of %r has degree %s" % (p, row["deg"]), "deg")
        ctx.require(not nan(row["time"]) and 0 <= row["time"] < 3600, lambda: "row of %r has time %s" % (p, row["time"]), "time")
        if sol is None:
            ctx.require(nan(row["solution"]) and nan(row["method"]), lambda: "row of %r without proof: %s" % (p, row), "fail")
        else:
            ctx.require(row["method"] == method, lambda: "row of %r: method %s, alone %s" % (p, row["method"], method), "method")
            ctx.require(row["solution"].problem == poly, lambda: "the solution of %r is about %s" % (p, row["solution"].problem), "solution")
            ctx.require(row["solution"].str_formatted == sol.str_formatted, lambda: "row of %r: %s, alone %s" % (p, row["solution"], sol), "solution")
    for s in statuses:
        ctx.label(s)
    ctx.label("saved" if save else "not saved")
    ctx.nontrivial(len(statuses) > 1)

    # the saved table
    found = [os.path.join(r, f) for r, _, fs in os.walk(tmp) for f in fs if f.endswith(".csv")]
    ctx.require(len(found) == (1 if save else 0), lambda: "files %s for save_result=%r" % (found, save), "save:file")
    if save:
        if case["save"] in ("csv", "bare"):
            ctx.require(os.path.realpath(found[0]) == os.path.realpath(os.path.join(tmp, save)), lambda: "saved to %s" % found[0], "save:file")
        import csv
        with open(found[0], newline="", encoding="utf-8") as f:
            table = list(csv.DictReader(f))
        ctx.require(len(table) == len(want), lambda: "%d saved rows for %d" % (len(table), len(want)), "save")
        for r, row, sol in zip(table, rows, exp):
            ctx.require(r["problem"] == str(row["problem"]) and r["status"] == row["status"] and int(float(r["deg"])) == row["deg"] and r["method"] == ("" if nan(row["method"]) else row["method"]),
                        lambda: "saved row %s, returned %s" % (r, row), "save")
            if case["how"] == "callable":
                text = kw["save_solution_method"](sol)
            else:
                text = "" if sol is None else getattr(sol, how)
            ctx.require(r["solution"].replace("\r\n", "\n") == text.replace("\r\n", "\n"), lambda: "saved solution %r instead of %r" % (r["solution"], text), "save:solution")
    if case["again"]:
        kw["save_result"] = False
        df2 = multiple(list(reversed(want)), **kw)
        ctx.label("again")
        for a, b in zip(reversed(df2.to_dict("records")), rows):
            ctx.require(a["status"] == b["status"] and a["deg"] == b["deg"] and (a["method"] == b["method"] or nan(a["method"]) and nan(b["method"])), lambda: "in reverse order %s, before %s" % (a, b), "order")


@CHECK.sub("strict", lambda: st.fixed_dictionaries({"p": st.lists(_problem(), min_size=1, max_size=4), "n": st.integers(0, 2)}), quick=150, thorough=2000, shards=2, case_timeout=60,
           rule="with errors not ignored an unreadable problem stops the run, and nothing else does")
def strict(case, ctx):
    from triples.core.sum_of_squares import sum_of_squares_multiple
    from triples.utils import preprocess_text
    probs = [poly_of(x) if k == "poly" else x for k, x in case["p"]]
    cfg = {"ignore_errors": False}

    def bad(p):
        try:
            preprocess_text(p)
            return False
        except Exception:
            return True
    want = any(isinstance(p, str) and p.strip() and bad(p.strip()) for p in probs)
    ctx.nontrivial(want)
    try:
        df = sum_of_squares_multiple(probs, method_order=["StructuralSOS"], poly_reader_configs=cfg, save_result=False, verbose_progress=False)
        got = False
    except ValueError:
        got = True
    ctx.require(got == want, lambda: "%s: %s" % (probs, "stopped" if got else "not stopped"), "strict")
    ctx.require(cfg == {"ignore_errors": False}, "reader options changed", "args")
    # a later lenient run is not affected
    if case["n"]:
        df = sum_of_squares_multiple(probs, method_order=["StructuralSOS"], save_result=False, verbose_progress=False)
        ctx.require(len(df) == sum(not isinstance(p, str) or bool(p.strip()) for p in probs), lambda: "%d rows for %s" % (len(df), probs), "rows")
