"""uncovered.py FOLDER PATH-PREFIX...: statements of /repo that the runs recorded under
VERIF_COVER=FOLDER never reached, grouped into blocks."""
import ast, glob, json, os, sys
repo = os.environ.get("VERIF_REPO", "/repo")
hit = {}
for f in glob.glob(sys.argv[1] + "/*.json"):
    for k, v in json.load(open(f)).items(): hit.setdefault(k, set()).update(v)
brief = os.environ.get("BRIEF")
for pre in sys.argv[2:]:
    for f in sorted(hit):
        if not f.startswith(pre): continue
        src = open(os.path.join(repo, f)).read()
        lines = src.split("\n"); stm = set()
        for n in ast.walk(ast.parse(src)):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)): continue
            if isinstance(n, ast.stmt) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                stm.add(n.lineno)
        miss = sorted(s for s in stm if s not in hit[f])
        print("%s: %d of %d statements not reached" % (f, len(miss), len(stm)))
        if brief: continue
        blocks = []; cur = []
        allst = sorted(stm); pos = {s: i for i, s in enumerate(allst)}
        for s in miss:
            if cur and pos[s] == pos[cur[-1]] + 1: cur.append(s)
            else:
                if cur: blocks.append(cur)
                cur = [s]
        if cur: blocks.append(cur)
        for b in blocks:
            print("   %5d-%-5d (%d)  %s" % (b[0], b[-1], len(b), lines[b[0] - 1].strip()[:110]))
