"""Development aid for planted bugs.
plant.py new SPEC.py      SPEC defines BUGS = [dict(id, property, edits=[(file, old, new)...], needs, breaks, demo)]
plant.py detect [ID...]   runs each planted bug's property check on a scratch copy; table in tools/detection.json
Works on a scratch copy of /repo under /tmp/w."""
import json, os, shutil, subprocess, sys, time, runpy, concurrent.futures as cf
ROOT = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
SEED = os.path.join(ROOT, "seeded")


def sh(cmd, cwd=None, env=None, timeout=1200):
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout, shell=isinstance(cmd, str))
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def scratch(name):
    d = "/tmp/w/plant/" + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/w/plant", exist_ok=True)
    shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".pytest_cache"))
    return d


def new(b):
    d = scratch("new-" + b["id"])
    out = os.path.join(SEED, b["id"])
    os.makedirs(out, exist_ok=True)
    try:
        demo = b["demo"].lstrip("\n")
        open(os.path.join(out, "demo.py"), "w").write(demo)
        open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\n# run with cwd = repository root\nexport OMP_NUM_THREADS=1\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        rc0, o0 = sh(["bash", os.path.join(out, "demo.sh")], cwd=d, timeout=280)
        for f, old, nw in b["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], "EDIT matches %d times in %s" % (s.count(old), f)
            open(p, "w").write(s.replace(old, nw))
        rc, diff = sh(["git", "diff"], cwd=d)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        rc1, o1 = sh(["bash", os.path.join(out, "demo.sh")], cwd=d, timeout=280)
        res = "demo clean=%d patched=%d" % (rc0, rc1)
        if rc0 != 0: res += "\n" + o0[-600:]
        if rc1 == 0: res += "  NOT VISIBLE"
        rc2, o2 = sh("/opt/venv/bin/python -W ignore -m pytest -q -p no:cacheprovider --rootdir=%s triples/utils/expression/tests 2>&1 | tail -1; for t in core/symsos/representation.py::triples.core.symsos.representation.sym_representation core/symsos/representation.py::triples.core.symsos.representation.sym_representation_inv utils/expression/cyclic.py::triples.utils.expression.cyclic._project_perm_group utils/expression/pqr.py::triples.utils.expression.pqr.pqr_cyc utils/expression/pqr.py::triples.utils.expression.pqr.pqr_sym utils/monomials.py::triples.utils.monomials.arraylize_np utils/monomials.py::triples.utils.monomials.arraylize_sp utils/monomials.py::triples.utils.monomials.invarraylize utils/text_process.py::triples.utils.text_process.degree_of_zero; do /opt/venv/bin/python -W ignore -m pytest -q -p no:cacheprovider --rootdir=%s --doctest-modules triples/$t 2>&1 | tail -1; done" % (d, d), cwd=d, timeout=600, env={"PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "PYTHONHASHSEED": "0", "PATH": "/opt/venv/bin:" + os.environ["PATH"]})
        lines = o2.strip().split("\n")
        res += " | tests " + ("ok" if len(lines) == 10 and all("passed" in l and "failed" not in l for l in lines) else str(lines))
        # the original line must be the one changed, not a line of ours
        return b["id"], res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def detect(i, seed="1"):
    meta = json.load(open(os.path.join(SEED, i, "meta.json")))
    d = scratch("det-" + i)
    try:
        rc, o = sh(["git", "apply", os.path.join(SEED, i, "patch.diff")], cwd=d)
        if rc: return i, meta["property"], "patch does not apply", 0, ""
        t = time.time()
        rc, o = sh([sys.executable, "check.py", meta["property"], "--tier", "quick"], cwd=ROOT,
                   env={"VERIF_REPO": d, "VERIF_SEED": seed, "VERIF_EVIDENCE": "/tmp/w/plant/ev-" + i})
        hit = [l for l in o.split("\n") if l.startswith("---")]
        return i, meta["property"], {0: "missed", 1: "caught"}.get(rc, "rc=%d" % rc), round(time.time() - t), (hit[0][:160] if hit else o[-200:] if rc not in (0, 1) else "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "new":
        bugs = runpy.run_path(sys.argv[2])["BUGS"]
        only = set(sys.argv[3:])
        with cf.ThreadPoolExecutor(4) as ex:
            for r in ex.map(new, [b for b in bugs if not only or b["id"] in only]):
                print(*r, flush=True)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEED))
        tab = {}
        p = os.path.join(ROOT, "tools", "detection.json")
        if os.path.exists(p): tab = json.load(open(p))
        for i in ids:
            r = detect(i)
            print(*r, flush=True)
            tab[i] = {"property": r[1], "quick": r[2], "wall_s": r[3], "how": r[4]}
            json.dump(tab, open(p, "w"), indent=1)
