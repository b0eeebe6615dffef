"""C08: cyclic sums and products mean their expansion over the group."""
from hypothesis import strategies as st
import sympy as sp
from sympy.combinatorics import Permutation, PermutationGroup
from triples.utils.expression import CyclicProduct, CyclicSum
import triples.utils.expression.cyclic as cyclic_mod

from .. import cyc, evalx, gen
from ..core import Check

CHECK = Check("C08", rule="expression trees with nested cyclic sums/products over random groups, plus a sequence of "
              "operations; the value after every operation (in a prime field, at random points) must equal the value "
              "of the tree evaluated from the definition. Non-trivial: the tree contains a cyclic node over a "
              "nontrivial group whose body is not constant, and at least one operation was applied.")
SYMS = cyc.SYMS


def _rule_value():
    return st.one_of(
        st.integers(0, cyc.NS - 1).map(lambda i: ["s", i]),
        st.integers(-3, 4).map(lambda i: ["n", i, 1]),
        st.tuples(st.integers(0, cyc.NS - 1), st.integers(0, cyc.NS - 1)).map(lambda t: ["*", ["s", t[0]], ["s", t[1]]]),
        st.tuples(st.integers(0, cyc.NS - 1), st.integers(0, cyc.NS - 1)).map(lambda t: ["+", ["s", t[0]], ["s", t[1]]]),
        cyc.plain(3))


def _rule():
    generic = st.dictionaries(st.integers(0, cyc.NS - 1), _rule_value(), min_size=1, max_size=4).map(
        lambda d: [[k, v] for k, v in sorted(d.items())])
    renaming = st.permutations(list(range(cyc.NS))).map(lambda p: [[i, ["s", j]] for i, j in enumerate(p)])
    part_renaming = st.tuples(st.permutations(list(range(cyc.NS))), st.integers(1, 4)).map(
        lambda t: [[i, ["s", j]] for i, j in list(enumerate(t[0]))[:t[1]]])
    equivariant = st.integers(2, 4).flatmap(lambda n: st.sampled_from([
        [[i, ["+", ["s", (i + 1) % n], ["s", (i + 2) % n]]] for i in range(n)],
        [[i, ["*", ["s", i], ["s", (i + 1) % n]]] for i in range(n)],
        [[i, ["^", ["s", i], 2]] for i in range(n)],
        [[i, ["*", ["n", -1, 1], ["s", i]]] for i in range(n)],
        [[i, ["s", (i + 1) % n]] for i in range(n)]]))
    return st.one_of(generic, generic, renaming, part_renaming, equivariant)


_PLAIN_OPS = ["doit", "doit_shallow", "expand", "together", "signsimp", "content", "rebuild", "coeff_mul", "neg2",
              "unevaluated", "as_poly", "subs_none", "replace_noop", "fraction", "content2", "pow2"]


def _op():
    def make(name):
        return _rule().map(lambda r: [name, r]) if name in ("xreplace", "subs") else st.just([name])
    return st.sampled_from(_PLAIN_OPS + ["xreplace"] * 12 + ["subs"] * 5).flatmap(make)


def _case():
    return st.fixed_dictionaries({"t": cyc.tree(), "ops": st.lists(_op(), min_size=1, max_size=4)})


def tree_value(t, ops_env):
    return cyc.value(t, ops_env)


def _pow_form(t):
    return t


@CHECK.sub("operations", _case, quick=2400, thorough=40000, shards=6, case_timeout=8,
           rule="one expression and 1-4 operations applied in sequence")
def operations(case, ctx):
    t = case["t"]
    if cyc.group_order(t) > 200:
        ctx.skip("large")
    e = cyc.build(t, CyclicSum, CyclicProduct)
    pts = [[d[s] for s in SYMS] for d in evalx.prime_points(SYMS, 3, salt=1)]

    # value as a function of the environment, updated by replacements
    def V(env):
        return cyc.value(t, env)
    try:
        [V(p) for p in pts]
    except evalx.DivZero:
        ctx.skip("identically singular")
    kinds = cyc.kinds(t)
    ctx.label(*[k for k in ("cs", "cp") if k in kinds], "depth%d" % cyc.cyc_depth(t))
    real_cyc = bool(e.atoms() and e.has(CyclicSum, CyclicProduct))
    ctx.nontrivial(real_cyc and e.free_symbols)

    def compare(e, V, what):
        for p in pts:
            try:
                want = V(p)
            except evalx.DivZero:
                continue
            try:
                got = evalx.evaluate(e, dict(zip(SYMS, p)))
            except evalx.DivZero:
                got = "division by zero"
            except evalx.Unsupported as u:
                if e.has(sp.zoo, sp.nan, sp.oo):
                    return  # singular substitution
                got = "unsupported %s" % u
            ctx.require(want == got, lambda: "%s: value %s, expansion has %s\nexpression %s" % (what, got, want, sp.srepr(e)[:1500]),
                        "operations:" + what.split()[0])
    compare(e, V, "construction")
    for op in case["ops"]:
        name = op[0]
        ctx.label(name)
        if name == "doit":
            e = e.doit()
            ctx.require(not e.has(CyclicSum, CyclicProduct), "doit() left a cyclic expression: %s" % e)
        elif name == "doit_shallow":
            e = e.doit(deep=False)
        elif name == "expand":
            if cyc.group_order(t) <= 24 and sp.count_ops(e) < 60:
                e2 = e.expand()
                compare(e2, V, "expand")
        elif name == "together":
            e = e.together()
        elif name == "signsimp":
            e = sp.signsimp(e)
        elif name in ("content", "content2"):
            cont, prim = e.as_content_primitive()
            compare(cont * prim, V, "as_content_primitive")
            ctx.require(cont.is_number, "content is not a number")
            if name == "content2":
                for x in sp.preorder_traversal(e):
                    if isinstance(x, (CyclicSum, CyclicProduct)):
                        k, q = x.as_content_primitive()
                        for p in pts:
                            env = dict(zip(SYMS, p))
                            try:
                                l, r = evalx.evaluate(x, env), evalx.evaluate(k * q, env)
                            except (evalx.DivZero, evalx.Unsupported):
                                continue
                            ctx.require(l == r, lambda: "content %s times primitive part %s is not %s" % (k, sp.srepr(q), sp.srepr(x)))
        elif name == "coeff_mul":
            c, r = e.as_coeff_Mul()
            compare(sp.Mul(c, r), V, "as_coeff_Mul")
        elif name == "neg2":
            e = -(-e)
        elif name == "pow2":
            compare(e**2, lambda p, V=V: V(p) * V(p) % evalx.P, "power")
        elif name == "fraction":
            n, d = sp.fraction(e.together())
            compare(n / d, V, "fraction")
        elif name == "rebuild":
            if e.args:
                e2 = e.func(*e.args)
                compare(e2, V, "rebuild")
        elif name == "unevaluated":
            for x in list(sp.preorder_traversal(e))[:8]:
                if isinstance(x, (CyclicSum, CyclicProduct)):
                    y = x.func(*x.args, evaluate=False)
                    for p in pts:
                        env = dict(zip(SYMS, p))
                        try:
                            l, r = evalx.evaluate(x, env), evalx.evaluate(y, env)
                            dd = evalx.evaluate(y.doit(), env)
                        except (evalx.DivZero, evalx.Unsupported):
                            continue
                        ctx.require(l == r == dd, "unevaluated form or its expansion has another value: " + sp.srepr(y))
        elif name == "as_poly":
            if cyc.group_order(t) <= 24 and sp.count_ops(e) < 40:
                d = e.doit()
                if d.is_polynomial(*SYMS) and d.free_symbols:
                    compare(sp.Poly(d, *SYMS).as_expr(), V, "as_poly")
        elif name == "subs_none":
            e2 = e.subs(sp.Symbol("unrelated"), 7)
            compare(e2, V, "subs unrelated")
        elif name == "replace_noop":
            e = e.replace(lambda q: isinstance(q, (CyclicSum, CyclicProduct)), lambda q: q)
        elif name in ("xreplace", "subs"):
            rule = {SYMS[i]: cyc.build(v, CyclicSum, CyclicProduct) for i, v in op[1]}
            rt = {i: v for i, v in op[1]}
            e = e.xreplace(rule) if name == "xreplace" else e.subs(rule, simultaneous=True)

            def V(env, V=V, rt=rt):
                return V([cyc.value(rt[i], env) if i in rt else env[i] for i in range(cyc.NS)])
        compare(e, V, name)
        if e.has(sp.zoo, sp.nan):
            return


def _canon_case():
    return st.fixed_dictionaries({"t": st.one_of(cyc.cyc_node(cyc.plain(6)), cyc.cyc_node(cyc.plain(6), nmax=6)),
                                  "p": st.integers(0, 119)})


@CHECK.sub("canonical", _canon_case, quick=1500, thorough=20000, shards=1, case_timeout=30, hang=True,
           rule="one cyclic node and one element of its group; both forms must be the same object value")
def canonical(case, ctx):
    k, body, ss, gens = case["t"]
    els = cyc.elements(gens)
    if len(els) > 120:
        ctx.skip("large group")
    g = els[case["p"] % len(els)]
    ctx.label("symbols%d" % len(ss))
    cls = CyclicSum if k == "cs" else CyclicProduct
    syms = tuple(SYMS[i] for i in ss)
    G = PermutationGroup(*[Permutation(x) for x in gens])
    b = cyc.build(body, CyclicSum, CyclicProduct)
    moved = b.xreplace({syms[i]: syms[g[i]] for i in range(len(syms))})
    e1, e2 = cls(b, syms, G), cls(moved, syms, G)
    ctx.nontrivial(b != moved)
    ctx.require(e1 == e2, lambda: "equal up to a group element but not identical:\n%s\n%s" % (sp.srepr(e1), sp.srepr(e2)))
    e3 = cls(b, tuple(syms[g[i]] for i in range(len(syms))), G)
    # the tuple relabelled by a group element: the same set of substitutions
    d = evalx.differs(e1, e3, SYMS)
    if d and "undefined" not in d:
        ctx.fail("symbols listed in a permuted order change the value: " + d)
    d1 = b.xreplace({syms[i]: syms[g[i]] for i in range(len(syms))})
    rep = e1.xreplace(dict(zip(syms, [syms[g[i]] for i in range(len(syms))])))
    d = evalx.differs(e1, rep, SYMS)
    if d and "undefined" not in d:
        ctx.fail("renaming by a group element changes the value: " + d)
    # predicates on the group
    if isinstance(e1, (CyclicSum, CyclicProduct)):
        n = len(ss)
        order = len(els)
        from math import factorial
        ctx.require(bool(e1.is_symmetric_group) == (order == factorial(n)), "is_symmetric_group wrong for %s" % gens)
        transitive = len({x[0] for x in els}) == n
        cyclic = order == n and transitive and any(_cycle_len(x) == n for x in els)
        ctx.require(bool(e1.is_cyclic_group) == cyclic or (order == n and not transitive), "is_cyclic_group wrong for %s" % gens)
    inv = getattr(cyclic_mod, "is_cyclic_expr", None)
    if inv is not None and inv(b, syms, G):
        for x in els:
            m = b.xreplace({syms[i]: syms[x[i]] for i in range(n)}) if False else b.xreplace({syms[i]: syms[x[i]] for i in range(len(syms))})
            d = evalx.differs(b, m, SYMS)
            ctx.require(not d or "undefined" in d, "expression reported invariant under the group is not")


def _cycle_len(g):
    i, k = g[0], 1
    while i != 0:
        i, k = g[i], k + 1
    return k


def _partial_case():
    def with_n(n):
        k = st.integers(1, n - 1)
        split = k.flatmap(lambda k: st.lists(st.tuples(gen.perm_list(k), gen.perm_list(n - k)).map(
            lambda t: t[0] + [k + i for i in t[1]]), min_size=1, max_size=3))
        anyg = st.lists(gen.perm_list(n), min_size=1, max_size=2)
        grp = st.one_of(split, split, anyg, gen.named_group(n))
        rule = st.dictionaries(st.integers(0, n - 1), _rule_value(), min_size=1, max_size=3).map(
            lambda d: [[i, v] for i, v in sorted(d.items())])
        return st.fixed_dictionaries({"n": st.just(n), "g": grp, "order": gen.perm_list(cyc.NS), "rule": rule,
                                      "exp": st.lists(st.integers(0, 4), min_size=n, max_size=n),
                                      "how": st.sampled_from(["xreplace", "xreplace", "subs"]), "prod": st.booleans()})
    return st.integers(2, 6).flatmap(with_n)


@CHECK.sub("partial_replacement", _partial_case, quick=2500, thorough=40000, shards=2, case_timeout=30, hang=True,
           rule="one cyclic node over a (sub)direct product of groups, replaced partially")
def partial_replacement(case, ctx):
    n, gens = case["n"], case["g"]
    idx = case["order"][:n]
    els = cyc.elements(gens)
    if len(els) > 120:
        ctx.skip("large group")
    body = ["*"] + [["^", ["s", idx[i]], k] for i, k in enumerate(case["exp"]) if k]
    body = ["+", body if len(body) > 1 else ["n", 1, 1], ["s", idx[0]]]
    t = ["cp" if case["prod"] else "cs", body, idx, gens]
    e = cyc.build(t, CyclicSum, CyclicProduct)
    rt = {i: v for i, v in case["rule"]}
    rule = {SYMS[i]: cyc.build(v, CyclicSum, CyclicProduct) for i, v in case["rule"]}
    e2 = e.xreplace(rule) if case["how"] == "xreplace" else e.subs(rule, simultaneous=True)
    ctx.nontrivial(len(els) > 1 and len(set(rt) & set(idx)) > 0)
    ctx.label("order%d" % len(els), case["how"], "kept" if e2.has(CyclicSum, CyclicProduct) else "expanded")
    for p in evalx.prime_points(SYMS, 2, salt=2):
        env = [p[s] for s in SYMS]
        want = cyc.value(t, [cyc.value(rt[i], env) if i in rt else env[i] for i in range(cyc.NS)])
        got = evalx.evaluate(e2, p)
        ctx.require(want == got, lambda: "replacing %s in %s (symbols %s, group %s) gives %s" % (rule, e, [SYMS[i] for i in idx], gens, e2))
