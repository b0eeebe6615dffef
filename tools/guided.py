"""guided.py SUBCASES OUT SECONDS WORKERS: coverage-guided search for inputs of the closed-form
solver (AFL style: an input which takes a new branch is kept and mutated further).
The inputs found are the seeds of the sub "guided" of C01 (pbt/data/c01_guided.json).

    guided.py run FOLDER SECONDS WORKERS     search; inputs and violations are put into FOLDER
    guided.py cover FOLDER OUT               a small set of inputs taking all branches seen"""
import glob
import hashlib
import json
import os
import random
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
TARGETS = ("/triples/core/structsos/",)


def worker(folder, seconds, me, seed):
    from pbt import env
    env.setup()
    import sympy as sp
    from pbt import core, ineq
    from pbt.checks import c01_struct
    sub = c01_struct.CHECK.subs["guided"]
    rnd = random.Random(seed)
    mon = sys.monitoring
    mon.use_tool_id(mon.COVERAGE_ID, "guided")
    arcs, names = set(), {}

    def branch(code, off, dest):
        f = code.co_filename
        i = f.rfind("/triples/core/structsos/")
        if i < 0:
            return mon.DISABLE
        k = names.get(code)
        if k is None:
            k = names[code] = "%s:%s:%d" % (f[i + 25:], code.co_name, code.co_firstlineno)
        arcs.add((k, off, dest))
    mon.register_callback(mon.COVERAGE_ID, mon.events.BRANCH, branch)
    mon.set_events(mon.COVERAGE_ID, mon.events.BRANCH)

    seen, pool = set(), []

    def execute(case, limit):
        arcs.clear()
        sub.case_timeout = limit
        t = time.time()
        status, info, ctx = core.decide(sub, case)
        return status, info, ctx, set(arcs), time.time() - t

    def offer(case, keep_always=False):
        status, info, ctx, got, dt = execute(case, 8)
        if status in ("fail", "harness"):
            with open(os.path.join(folder, "bad-%s.json" % core.case_key(case)), "w") as f:
                json.dump({"case": case, "info": info}, f)
        new = got - seen
        if not new or status not in ("ok", "fail"):
            return False
        if dt > 6:
            return False
        seen.update(new)
        pool.append((case, dt, len(new), "answered" in ctx.labels))
        with open(os.path.join(folder, "in-%d-%s.json" % (me, core.case_key(case))), "w") as f:
            json.dump({"case": case, "arcs": sorted(got), "t": dt, "answered": "answered" in ctx.labels}, f)
        return True

    def enc(p):
        return [[str(c), list(e)] for e, c in sorted(p.items())]

    def dec(f):
        return {tuple(e): sp.sympify(c) for c, e in f}

    els_of = {g: lambda n, g=g: ineq.group_elements(g, n) for g in ("cyc", "sym", "none")}
    start = []
    for i in range(ineq.n_corpus()):
        n, p = ineq.corpus_poly(i)
        if n == 3 and all(e[2] == 0 for e in p):
            n, p = 2, {e[:2]: c for e, c in p.items()}
        start += [{"n": n, "f": enc(p), "con": c, "names": 0, "as_poly": True, "acute": False} for c in ("self", "none")]
        if n == 3 and ineq.pdeg(p) <= 7:
            start.append({"n": n, "f": enc(p), "con": "func", "names": 0, "as_poly": True, "acute": True})
    rnd.shuffle(start)
    # the inputs of the last search come first
    start = list(c01_struct._guided_seeds()) + start

    def monos(n, d):
        return ineq._monos_of_degree(n, d)

    def small():
        return rnd.choice([sp.Integer(rnd.randint(-6, 6)), sp.Integer(rnd.choice([1, -1, 2, -2, 3])), sp.Rational(rnd.randint(-12, 12), rnd.randint(1, 6)),
                           sp.Integer(rnd.randint(-40, 40))])

    def symmetric(p, n):
        for g in ("sym", "cyc"):
            els = els_of[g](n)
            if all(ineq.pact(p, x) == p for x in els):
                return g
        return "none"

    def sparse_part():
        e = lambda lo=0, hi=5: rnd.randint(lo, hi)
        w = rnd.choice(["1", "1", "2", "1/2", "3", "-1/4", "-1"])
        k = rnd.choice(["mix", "mix", "mix", "pair", "center", "three", "H", "P", "border", "anti", "anti"])
        if k == "mix": return [k, rnd.choice([6, 7, 8, 8, 8, 9, 10]), [[rnd.choice(["anti", "four", "square"]), e(0, 20), e(0, 20), e(-3, 6)] for _ in range(rnd.randint(1, 5))], rnd.random() < 0.8, w]
        if k == "pair": return [k, [e(), e(), e()], [e(-3, 4), e(-3, 4)], w, rnd.choice(["1", "1", "1/2"])]
        if k == "center": return [k, e(1, 4), [e(0, 12), e(0, 12)], w, rnd.choice(["1", "1", "1/2"])]
        if k == "three": return [k, [e(), e(), e()], [e(-2, 3) for _ in range(4)], w, rnd.choice(["1", "2", "1/2"])]
        if k == "H": return [k, e(-4, 5), e(), e(1, 3), w]
        if k == "P": return [k, e(), e(1, 3), e(), e(1, 3), w]
        if k == "border": return [k, e(), [e(-3, 3) for _ in range(rnd.randint(2, 3))], e(0, 3), w]
        return [k, [e(0, 3) for _ in range(3)], rnd.random() < 0.6, w]

    def fresh():
        if rnd.random() < 0.35:
            for _ in range(20):
                p = c01_struct._sparse_poly([sparse_part() for _ in range(rnd.choice([1, 1, 2, 2, 3, 4]))], rnd.choice([1, 1, 1, 2]), rnd.choice([0, 0, 0, 1]))
                if p and ineq.pdeg(p) <= 16 and len(p) <= 80: return p, 3
        n = rnd.choice([2, 3, 3, 3, 3, 3, 3, 4])
        g = rnd.choice(["cyc", "cyc", "sym", "none"])
        d = rnd.choice({"none": [2, 3, 3, 4, 4, 5, 6], "cyc": [3, 4, 5, 6, 7, 8, 9], "sym": [3, 4, 5, 6, 6, 7, 8, 9, 10]}[g]) if n == 3 else rnd.choice([2, 3, 4] if n == 4 else [2, 3, 4, 5, 6])
        els = els_of[g](n)
        p = {}
        for _ in range(rnd.randint(1, 3)):
            p = ineq.padd(p, nonneg(n, d, els))
        return p, n

    def nonneg(n, d, els):
        e = rnd.choice([k for k in range(d % 2, d + 1, 2)])
        k = (d - e) // 2
        m = {rnd.choice(monos(n, e)): sp.Integer(rnd.randint(1, 4))}
        q = {}
        for _ in range(rnd.randint(1, 3)):
            q[rnd.choice(monos(n, k))] = rnd.choice([sp.Integer(rnd.randint(-4, 4) or 1), small() or sp.Integer(1)])
        if rnd.random() < 0.5:
            s = sum(q.values())
            j = rnd.choice(monos(n, k))
            q[j] = q.get(j, 0) - s
        return ineq.pcyc(ineq.pmul(m, ineq.pmul(q, q)), els)

    def mutate(case):
        case = dict(case)
        p, n = dec(case["f"]), case["n"]
        d = ineq.pdeg(p)
        g = symmetric(p, n)
        if rnd.random() < 0.1:
            g = rnd.choice(["none", "cyc", g])
        els = els_of[g](n)
        for _ in range(rnd.choice([1, 1, 1, 2, 3])):
            k = rnd.randint(0, 13)
            ms = monos(n, d)
            m = rnd.choice(ms)
            orb = ineq.pcyc({m: sp.Integer(1)}, els)
            orb = {e: sp.Integer(1) for e in orb}
            c = p.get(m, sp.Integer(0))
            if k == 5 and n == 3 and rnd.random() < 0.5:
                q = [q for q in (c01_struct._sparse_poly([sparse_part()], 1, 0) for _ in range(60)) if q and ineq.pdeg(q) == d]
                p = ineq.padd(p, q[0]) if q else p
            elif k == 0:    # an orbit removed
                p = {e: v for e, v in p.items() if e not in orb}
            elif k <= 2:  # an orbit set
                v = small()
                p = ineq.padd(p, ineq.pscale(orb, v - c)) if v != c else p
            elif k == 3:  # nudged
                p = ineq.padd(p, ineq.pscale(orb, rnd.choice([1, -1, sp.Rational(1, 3), sp.Rational(-1, 2), sp.Rational(1, 100), sp.Rational(-1, 100), 5])))
            elif k == 4:
                p = ineq.padd(p, ineq.pscale(orb, -c if rnd.random() < 0.3 else c)) if c else p
            elif k == 5:
                p = ineq.padd(p, nonneg(n, d, els))
            elif k in (6, 7):  # vanish at (1, ..., 1) (or at a border point)
                v = sum(p.values())
                s = sum(orb.values())
                p = ineq.padd(p, ineq.pscale(orb, -v / s)) if v else p
            elif k == 8:  # with another input of the same shape
                other = [x for x in rnd.sample(pool, min(len(pool), 60)) if x[0]["n"] == n and abs(ineq.pdeg(dec(x[0]["f"])) - d) <= 0]
                if other:
                    q = dec(rnd.choice(other)[0]["f"])
                    p = ineq.padd(p, ineq.pscale(q, rnd.choice([1, 1, 2, sp.Rational(1, 2), -1])))
            elif k == 9:  # vanish at a random point
                x = [rnd.choice([0, 1, 1, 2, 3]) for _ in range(n)]
                v, s = ineq.peval(p, x), ineq.peval(orb, x)
                if s:
                    p = ineq.padd(p, ineq.pscale(orb, -v / s))
            elif k == 10 and g == "none":
                i, s = rnd.randrange(n), rnd.choice([2, sp.Rational(1, 2), 3])
                p = {e: v * s**e[i] for e, v in p.items()}
            elif k == 11 and d <= 7:
                f = rnd.choice([ineq.pcyc({tuple([1] + [0] * (n - 1)): sp.Integer(1)}, els_of["cyc"](n)), {tuple([1] * n): sp.Integer(1)}])
                if ineq.pdeg(f) + d <= 9:
                    p = ineq.pmul(p, f)
            elif k == 12:
                case["con"] = rnd.choice(["self", "none", "func", "sym", "missing", "scaled"])
            elif k == 13:
                case["acute"] = rnd.random() < 0.5 and n == 3
            if not p:
                return None
        if not p or len(p) > 80 or ineq.pdeg(p) < 1 or any(len(str(v)) > 40 for v in p.values()):
            return None
        case["f"] = enc(p)
        return case

    end = time.time() + seconds
    done = n_exec = 0
    taken = set()
    last = time.time()
    for case in start[me::int(os.environ["GUIDED_WORKERS"])]:
        offer(case)
        if time.time() > end:
            return
    while time.time() < end:
        if time.time() - last > 60:
            last = time.time()
            for f in glob.glob(os.path.join(folder, "in-*.json")):
                b = os.path.basename(f)
                if b.startswith("in-%d-" % me) or b in taken:
                    continue
                taken.add(b)
                try:
                    r = json.load(open(f))
                except ValueError:
                    continue
                got = {tuple(x) for x in r["arcs"]}
                if got - seen:
                    pool.append((r["case"], r["t"], len(got - seen), r["answered"]))
                    seen.update(got)
            print("worker %d: %d executions, %d branches, pool %d" % (me, n_exec, len(seen), len(pool)), flush=True)
        if not pool or rnd.random() < 0.12:
            p, n = fresh()
            case = {"n": n, "f": enc(p), "con": rnd.choice(["self", "none", "func"]), "names": 0, "as_poly": True, "acute": n == 3 and rnd.random() < 0.1} if p else None
        else:
            # recent inputs and cheap ones are preferred
            c = rnd.sample(pool, min(5, len(pool))) + pool[-3:]
            best = max(c, key=lambda x: rnd.random() * (2 if x[3] else 1) / (0.3 + x[1]))
            case = mutate(best[0])
        if case is None:
            continue
        n_exec += 1
        try:
            offer(case)
        except Exception as e:
            print("worker", me, repr(e)[:200], flush=True)


def cover(folder, out):
    ins = [json.load(open(f)) for f in glob.glob(os.path.join(folder, "in-*.json"))]
    ins = [r for r in ins if r["t"] < 3.5]
    for r in ins:
        r["arcs"] = {tuple(x) for x in r["arcs"]}
    chosen = []
    # the branches taken on the way to an answer twice, the others once
    for group in ([r for r in ins if r["answered"]], [r for r in ins if r["answered"]], ins):
        group = [r for r in group if not any(r is x for x in chosen)]
        left = set().union(*[r["arcs"] for r in group])
        if group and len(chosen) and any(not r["answered"] for r in group):
            left -= set().union(*[r["arcs"] for r in chosen])
        print(len(group), "inputs,", len(left), "branches")
        while left:
            r = max(group, key=lambda r: len(r["arcs"] & left) / (0.4 + r["t"]))
            if not r["arcs"] & left:
                break
            left -= r["arcs"]
            chosen.append(r)
    print(len(chosen), "chosen,", round(sum(r["t"] for r in chosen)), "s")
    with open(out, "w") as f:
        f.write("[\n" + ",\n".join(json.dumps(r["case"]) for r in chosen) + "\n]\n")


if __name__ == "__main__":
    if sys.argv[1] == "run":
        os.makedirs(sys.argv[2], exist_ok=True)
        e = dict(os.environ, GUIDED_WORKERS=sys.argv[4], PYTHONHASHSEED="0")
        py = "/opt/venv/bin/python"
        ps = [subprocess.Popen([py, "-W", "ignore", os.path.abspath(__file__), "worker", sys.argv[2], sys.argv[3], str(i), str(int(time.time()) * 100 + i)], env=e) for i in range(int(sys.argv[4]))]
        [p.wait() for p in ps]
    elif sys.argv[1] == "worker":
        worker(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]))
    else:
        cover(sys.argv[2], sys.argv[3])
