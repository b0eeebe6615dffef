"""mutate.py PID FILES N [seed] [cov-folder]: survey of blind spots.  Applies N random one-token changes (one at a time, to a scratch
copy) to lines that the check PID is known to execute, runs the check on each and prints the changes it does not notice.  A survivor
is a hint, not a defect of the check: many change nothing observable (tolerances, heuristics, printing)."""
import ast, glob, json, os, random, shutil, subprocess, sys, concurrent.futures as cf
ROOT = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
pid, files, n = sys.argv[1], sys.argv[2].split(","), int(sys.argv[3])
seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
cov = sys.argv[5] if len(sys.argv) > 5 else "/tmp/w/cov/" + pid
W = int(os.environ.get("W", "4")); SCALE = os.environ.get("SCALE", "0.5"); BUDGET = os.environ.get("BUDGET", "60"); CORES = os.environ.get("CORES", "2")
hit = {}
for f in glob.glob(cov + "/*.json"):
    for k, v in json.load(open(f)).items(): hit.setdefault(k, set()).update(v)
CMP = {"Lt": "<=", "LtE": "<", "Gt": ">=", "GtE": ">", "Eq": "!=", "NotEq": "==", "Is": "is not", "IsNot": "is", "In": "not in", "NotIn": "in"}
BIN = {"Add": "-", "Sub": "+", "Mult": "+", "FloorDiv": "*", "Div": "*", "Mod": "//", "Pow": "*"}


def sites(path):
    src = open(path).read(); lines = src.split("\n"); tree = ast.parse(src)
    rel = os.path.relpath(path, "/repo"); ok = hit.get(rel, set())
    out = []
    def seg(a, b):        # text between two positions on one line
        return (a[0], a[1], b[1]) if a[0] == b[0] else None
    infn = {}
    for fn in ast.walk(tree):
        if isinstance(fn, ast.FunctionDef):
            for x in ast.walk(fn): infn[id(x)] = fn.name
    for x in ast.walk(tree):
        if id(x) not in infn or not hasattr(x, "lineno") or x.lineno not in ok: continue
        t = lines[x.lineno - 1]
        if "print(" in t or "verbose" in t or "time(" in t or "warn(" in t or "raise " in t or "def " in t: continue
        if not t.isascii(): continue
        P = lambda z: (z.lineno, z.col_offset); E = lambda z: (z.end_lineno, z.end_col_offset)
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and E(x.left)[0] == P(x.comparators[0])[0]:
            s = seg(E(x.left), P(x.comparators[0])); out.append((s, " %s " % CMP[type(x.ops[0]).__name__]))
        elif isinstance(x, ast.BinOp) and type(x.op).__name__ in BIN and E(x.left)[0] == P(x.right)[0]:
            gap = lines[E(x.left)[0] - 1][E(x.left)[1]:P(x.right)[1]]
            if "(" in gap or ")" in gap: continue
            out.append((seg(E(x.left), P(x.right)), " %s " % BIN[type(x.op).__name__]))
        elif isinstance(x, ast.BoolOp) and E(x.values[0])[0] == P(x.values[1])[0]:
            gap = lines[E(x.values[0])[0] - 1][E(x.values[0])[1]:P(x.values[1])[1]]
            if "(" in gap or ")" in gap: continue
            out.append((seg(E(x.values[0]), P(x.values[1])), " or " if isinstance(x.op, ast.And) else " and "))
        elif isinstance(x, ast.Constant) and type(x.value) is int and E(x)[0] == x.lineno:
            for d in (1, -1): out.append((seg(P(x), E(x)), str(x.value + d)))
        elif isinstance(x, ast.Constant) and type(x.value) is bool:
            out.append((seg(P(x), E(x)), str(not x.value)))
        elif isinstance(x, ast.UnaryOp) and isinstance(x.op, (ast.Not, ast.USub)) and x.lineno == x.operand.lineno:
            out.append((seg(P(x), P(x.operand)), ""))
        elif isinstance(x, ast.If) and E(x.test)[0] == x.test.lineno:
            tt = lines[x.test.lineno - 1][x.test.col_offset:x.test.end_col_offset]
            out.append((seg(P(x.test), E(x.test)), "(not (%s))" % tt))
        elif isinstance(x, (ast.Expr, ast.AugAssign)) and x.lineno == x.end_lineno and not (isinstance(x, ast.Expr) and isinstance(x.value, (ast.Constant, ast.Yield))):
            out.append((seg(P(x), E(x)), "pass"))
    return [(rel, s, r, infn) for s, r in out if s]


allsites = []
for f in files:
    for p in sorted(glob.glob("/repo/" + f)):
        allsites += [(a, s, r) for a, s, r, _ in sites(p)]
rnd = random.Random(seed)
pick = rnd.sample(allsites, min(n, len(allsites)))
print("%d sites, %d taken" % (len(allsites), len(pick)), flush=True)
base = "/tmp/w/mut/%s-%d" % (pid, seed)


def one(job):
    i, (rel, (ln, a, b), r) = job
    d = "%s-%d" % (base, i)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".git", ".pytest_cache"))
    try:
        p = os.path.join(d, rel); L = open(p, newline="").read().split("\n"); old = L[ln - 1]
        L[ln - 1] = old[:a] + r + old[b:]
        open(p, "w", newline="").write("\n".join(L))
        try: ast.parse("\n".join(L))
        except SyntaxError: return None
        env = dict(os.environ, VERIF_REPO=d, VERIF_SEED=str(seed + 100), VERIF_EVIDENCE=d + "/.ev", VERIF_JOBS=CORES, VERIF_SHRINK="1")
        try:
            q = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), pid, *os.environ.get("EXTRA", "").split(), "--scale", SCALE, "--budget", BUDGET], cwd=ROOT, env=env, capture_output=True, text=True, timeout=900)
            rc, o = q.returncode, q.stdout
        except subprocess.TimeoutExpired:
            rc, o = 124, ""
        how = [l for l in o.split("\n") if l.startswith("--- ")]
        return rc, rel, ln, old.strip(), L[ln - 1].strip(), how[0][:150] if how else ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


os.makedirs("/tmp/w/mut", exist_ok=True)
cnt = {}
with cf.ThreadPoolExecutor(W) as ex:
    for res in ex.map(one, enumerate(pick)):
        if res is None: continue
        rc, rel, ln, old, new, how = res
        cnt[rc] = cnt.get(rc, 0) + 1
        if rc != 1: print("rc%d %s:%d\n    - %s\n    + %s" % (rc, rel, ln, old, new), flush=True)
        elif os.environ.get("ALL"): print("caught %s:%d %s | %s" % (rel, ln, new, how), flush=True)
print(pid, cnt, flush=True)
