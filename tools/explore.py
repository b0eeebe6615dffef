"""Development aid: run many cases of one sub without stopping at the first failure.
usage: explore.py C01 sub N [seed] [--jobs 8]"""
import collections, json, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import importlib, pathlib, subprocess


def work(pid, subname, n, seed, out):
    import warnings; warnings.simplefilter("ignore")
    from pbt import env; env.setup()
    mod = load(pid)
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from pbt.core import decide
    sub = mod.CHECK.subs[subname]
    fails, stat, labels, slow = [], collections.Counter(), collections.Counter(), []
    def one(case):
        t = time.time()
        status, info, ctx = decide(sub, case)
        dt = time.time() - t
        stat[status] += 1
        if ctx.is_nontrivial: stat["nontrivial"] += 1
        for l in ctx.labels: labels[l] += 1
        if dt > 5: slow.append((round(dt, 1), case))
        if status in ("fail", "harness", "inconclusive", "timeout"):
            fails.append({"case": case, "status": status, **info})
    if seed % 1000 == 0 and sub.enumerated:
        for c in sub.enumerated("quick"): one(c)
    if sub.strategy and n:
        @hypothesis.seed(seed)
        @settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=(Phase.generate,))
        @given(case=sub.strategy())
        def t(case): one(case)
        t()
    json.dump([fails, stat, labels, slow], open(out, "w"))


def load(pid):
    p = list(pathlib.Path(__file__).resolve().parent.parent.glob("pbt/checks/%s_*.py" % pid.lower()))[0]
    return importlib.import_module("pbt.checks." + p.stem)


if __name__ == "__main__":
    from pbt.env import process_env
    if sys.argv[1] == "--work":
        work(sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), sys.argv[6]); sys.exit()
    jobs = 8
    if "--jobs" in sys.argv:
        i = sys.argv.index("--jobs"); jobs = int(sys.argv[i + 1]); del sys.argv[i:i + 2]
    pid, sub, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
    seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    e = process_env() if callable(process_env) else os.environ
    ps = []
    for j in range(jobs):
        out = "/tmp/w/explore.%d.%d.json" % (os.getpid(), j)
        ps.append((subprocess.Popen(["/opt/venv/bin/python", os.path.abspath(__file__), "--work", pid, sub, str(n // jobs), str(seed * 1000 + j), out],
                                    env=e, cwd=os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."), stderr=subprocess.PIPE), out))
    fails, stat, labels, slow = [], collections.Counter(), collections.Counter(), []
    for p, out in ps:
        err = p.communicate()[1]
        if p.returncode:
            print("worker died", p.returncode, err[-600:].decode()); break
        f, s, l, w = json.load(open(out)); os.unlink(out)
        fails += f; stat.update(s); labels.update(l); slow += w
    print(pid, sub, dict(stat))
    print(dict(labels.most_common(60)))
    groups = collections.defaultdict(list)
    for f in fails:
        groups[f["status"], f.get("signature", "")].append(f)
    for k, v in groups.items():
        v.sort(key=lambda f: len(json.dumps(f["case"])))
        print("==", k, len(v))
        for f in v[:int(os.environ.get("SHOW", 3))]:
            print("   ", json.dumps(f["case"])[:500]); print("      ", f["message"][:400].replace("\n", " | ") + " ... " + f["message"][-300:].replace("\n", " | "))
    for s in sorted(slow, key=lambda t: -t[0])[:4]: print("slow", s[0], json.dumps(s[1])[:300])
