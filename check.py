#!/usr/bin/env python3
"""Decides one property:  check.py C01 [--tier quick|thorough] [--sub NAME] [--replay FILE]

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
Exit 2: the check itself failed."""
import argparse
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from pbt.env import PYTHON, process_env  # noqa: E402

WORKERS = int(os.environ.get("VERIF_JOBS", "8"))


def module_of(pid):
    m = glob.glob(os.path.join(ROOT, "pbt", "checks", pid.lower() + "_*.py"))
    if len(m) != 1:
        print("no check for", pid, file=sys.stderr)
        sys.exit(2)
    return os.path.basename(m[0])[:-3]


class Job:
    def __init__(self, base, spec, limit):
        self.spec, self.limit = spec, limit
        self.dir = tempfile.mkdtemp(prefix="job", dir=base)
        spec["scratch"] = os.path.join(self.dir, "scratch")
        os.mkdir(spec["scratch"])
        spec["out"] = os.path.join(self.dir, "out.json")
        self.file = os.path.join(self.dir, "spec.json")
        json.dump(spec, open(self.file, "w"))
        self.p = None

    def start(self):
        self.t0 = time.monotonic()
        self.log = open(os.path.join(self.dir, "log"), "wb")
        self.p = subprocess.Popen([PYTHON, "-W", "ignore", "-m", "pbt.worker", self.file], cwd=ROOT,
                                  env=process_env(), stdout=self.log, stderr=self.log, start_new_session=True)

    def poll(self, now):
        if self.p.poll() is not None:
            return True
        if now - self.t0 > self.limit:
            self.kill()
            return True
        return False

    def kill(self):
        try:
            os.killpg(self.p.pid, 9)
        except ProcessLookupError:
            pass
        self.p.wait()

    def result(self):
        self.log.close()
        try:
            return json.load(open(self.spec["out"]))
        except (OSError, ValueError):
            tail = open(os.path.join(self.dir, "log"), "rb").read()[-1500:].decode("utf8", "replace")
            return {"killed": True, "log": tail}


def run_jobs(jobs, stop):
    waiting, running, done = list(jobs), [], []
    while waiting or running:
        while waiting and len(running) < WORKERS:
            j = waiting.pop(0)
            j.start()
            running.append(j)
        time.sleep(0.05)
        now = time.monotonic()
        for j in list(running):
            if j.poll(now):
                running.remove(j)
                r = j.result()
                done.append((j, r))
                if stop(j, r):
                    for k in running:
                        k.kill()
                        done.append((k, k.result()))
                    return done
    return done


def replay(base, module, sub, case, limit=400, patience=1):
    j = Job(base, {"mode": "replay", "module": module, "sub": sub, "case": case, "patience": patience}, limit)
    j.start()
    while not j.poll(time.monotonic()):
        time.sleep(0.05)
    return j.result()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--sub", action="append")
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--budget", type=float, default=None, help="seconds of search per shard")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid = a.pid.upper()
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if a.tier == "thorough" else "quick"
    module = module_of(pid)
    base = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        sys.exit(run(a, pid, seed, tier, module, base))
    finally:
        shutil.rmtree(base, ignore_errors=True)


def describe(module):
    """The list of subs, read in a separate process (importing the code under test)."""
    code = ("import sys,json; sys.path.insert(0,%r)\nfrom pbt import env; env.setup()\nimport importlib\n"
            "m=importlib.import_module('pbt.checks.'+%r)\nc=m.CHECK\n"
            "print('@@'+json.dumps([c.rule,c.assumptions,[[s.name,s.quick,s.thorough,s.shards,s.rule] for s in c.subs.values()]]))" % (ROOT, module))
    r = subprocess.run([PYTHON, "-W", "ignore", "-c", code], env=process_env(), cwd=ROOT, capture_output=True, text=True)
    for line in r.stdout.splitlines():
        if line.startswith("@@"):
            return json.loads(line[2:])
    print("cannot load check: " + r.stderr[-3000:], file=sys.stderr)
    sys.exit(2)


def run(a, pid, seed, tier, module, base):
    t0 = time.monotonic()
    if a.replay:
        d = json.load(open(a.replay))
        r = replay(base, module, d["sub"], d["case"], patience=d.get("patience", 1))
        if d.get("patience", 1) > 1 and r.get("status") == "timeout":
            r["status"] = "fail"
        print(json.dumps(r, indent=1, ensure_ascii=False)[:6000])
        if r.get("status") == "fail":
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
            return 1
        return 0 if r.get("status") in ("ok", "skip") else 2

    rule, assumptions, subs = describe(module)
    if a.sub:
        subs = [s for s in subs if s[0] in a.sub]
    quick = tier == "quick"
    budget = a.budget or (200 if quick else 3000)
    shrink = float(os.environ.get("VERIF_SHRINK", 45 if quick else 300))
    hard = (560 if quick else 7200)
    specs = []
    for name, nq, nt, shards, _ in subs:
        n = max(1, int((nq if quick else nt) * a.scale))
        k = shards if quick else max(shards, 4)
        for i in range(k):
            m = n // k + (1 if i < n % k else 0)
            h = int(hashlib.sha1(("%s/%s/%d/%d" % (pid, name, i, seed)).encode()).hexdigest()[:12], 16)
            specs.append({"mode": "search", "module": module, "sub": name, "tier": tier, "seed": h, "shard": i,
                          "n": m, "budget_s": budget, "shrink_s": shrink, "weight": m / max(nq, 1)})
    jobs = [Job(base, s, hard) for s in specs]

    violations = []
    os.makedirs(os.path.join(ROOT, "evidence", "replays"), exist_ok=True)

    # the listed findings are replayed first, so that they are reported on every run
    from pbt.core import load_known
    known_lines = []
    for k in load_known(pid):
        if a.sub and k["sub"] not in a.sub:
            continue
        r = replay(base, module, k["sub"], k["case"])
        if r.get("status") == "fail":
            known_lines.append("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
            print(known_lines[-1], flush=True)
    unconfirmed = []

    def hang(job, case):
        """a case that did not end gets a process of its own and four times the limit"""
        name = job.spec["sub"]
        if len(patience) > 3:
            return False
        patience.append(name)
        rr = replay(base, module, name, case, patience=4)
        if rr.get("status") != "timeout":
            unconfirmed.append({"sub": name, "case": case, "message": "did not end at first"})
            return False
        path = os.path.join("evidence", "replays", "%s-%s.json" % (pid, name))
        json.dump({"property": pid, "sub": name, "case": case, "seed": seed, "patience": 4, "message": rr["info"]["message"],
                   "replay_with": "python3 check.py %s --replay %s" % (pid, path)}, open(os.path.join(ROOT, path), "w"), indent=1, ensure_ascii=False)
        violations.append((name, path, "no answer: " + rr["info"]["message"]))
        return True
    patience = []

    def stop(job, r):
        b = r.get("best")
        if not b:
            return r.get("hung") is not None and hang(job, r["hung"])
        for cand in (b, r["first"]):
            rr = replay(base, module, job.spec["sub"], cand["case"])
            if rr.get("status") == "fail":
                from pbt.core import matches_known
                if matches_known(load_known(pid), job.spec["sub"], rr["info"]):
                    continue
                path = os.path.join("evidence", "replays", "%s-%s.json" % (pid, job.spec["sub"]))
                json.dump({"property": pid, "sub": job.spec["sub"], "case": cand["case"], "seed": seed,
                           "message": rr["info"]["message"], "signature": rr["info"].get("signature"),
                           "replay_with": "python3 check.py %s --replay %s" % (pid, path)},
                          open(os.path.join(ROOT, path), "w"), indent=1, ensure_ascii=False)
                violations.append((job.spec["sub"], path, rr["info"]["message"]))
                return True
        unconfirmed.append({"sub": job.spec["sub"], "case": b["case"], "message": b["message"]})
        return False

    done = run_jobs(jobs, stop)
    return report(a, pid, seed, tier, rule, assumptions, subs, done, violations, unconfirmed, known_lines, t0)


def report(a, pid, seed, tier, rule, assumptions, subs, done, violations, unconfirmed, known_lines, t0):
    per, samples, harness, keys_total, evals = {}, [], [], 0, 0
    rules = {s[0]: s[4] for s in subs}
    keysets = {}
    for job, r in done:
        name = job.spec["sub"]
        p = per.setdefault(name, {"evaluations": 0, "distinct_nontrivial": 0, "status": {}, "labels": {}, "rule": rules.get(name, ""),
                                  "known_hits": {}, "stopped": [], "killed": 0, "wall_s": 0.0, "slowest_s": 0})
        if r.get("killed"):
            p["killed"] += 1
            continue
        if "error" in r:
            harness.append("%s: %s" % (name, r["error"]))
            continue
        p["evaluations"] += r["evaluations"]
        p["wall_s"] = round(p["wall_s"] + r["wall_s"], 1)
        p["slowest_s"] = max(p["slowest_s"], r["slowest_s"])
        if r.get("slowest_case") and a.v:
            print("slow case", name, r["slowest_s"], json.dumps(r["slowest_case"])[:600])
        keysets.setdefault(name, set()).update(r["keys"])
        for f in ("status", "labels", "known_hits"):
            for k, v in r[f].items():
                p[f][k] = p[f].get(k, 0) + v
        if r["stopped"]:
            p["stopped"].append(r["stopped"])
        if r["shard"] == 0:
            samples += [{"sub": name, "case": s} for s in r["samples"][:2]]
        for h in r["harness_errors"]:
            harness.append("%s: %s\n%s" % (name, json.dumps(h["case"], ensure_ascii=False)[:1500], h["message"]))
    for name, p in per.items():
        p["distinct_nontrivial"] = len(keysets.get(name, ()))
        p["labels"] = dict(sorted(p["labels"].items(), key=lambda kv: -kv[1])[:80])
        evals += p["evaluations"]
        keys_total += p["distinct_nontrivial"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": keys_total,
                       "rule": rule, "samples": json.loads(json.dumps(samples))[:40], "per_sub": per,
                       "unconfirmed": unconfirmed, "known_findings_reproduced": known_lines},
          "assumptions": assumptions, "wall_s": round(time.monotonic() - t0, 2), "violations": len(violations)}
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs" % (pid, tier, seed, evals, keys_total, ev["wall_s"]))
    for name, p in per.items():
        print("  %-24s n=%d nontrivial=%d status=%s cpu=%.0fs slowest=%.1fs%s" % (
            name, p["evaluations"], p["distinct_nontrivial"], p["status"], p["wall_s"], p["slowest_s"],
            " STOPPED:" + ",".join(p["stopped"]) if p["stopped"] else ""))
        if a.v:
            print("     ", p["labels"])
    for u in unconfirmed:
        print("  unconfirmed (not reproduced in a fresh process):", json.dumps(u, ensure_ascii=False)[:1500])
    for sub, path, msg in violations:
        print("--- %s: %s" % (sub, msg[:3000]))
    for sub, path, msg in violations:
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if violations:
        return 1
    if harness:
        print("HARNESS ERROR\n" + "\n".join(harness[:3]), file=sys.stderr)
        return 2
    if evals == 0:
        print("HARNESS ERROR: nothing was evaluated", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    main()
