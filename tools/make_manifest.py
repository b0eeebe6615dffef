"""Writes MANIFEST.json from properties.jsonl and the check modules that exist."""
import glob, json, os, pathlib
ROOT = pathlib.Path(__file__).resolve().parent.parent
TECH = json.load(open(ROOT / "tools" / "techniques.json"))
NA = {}
checks, na = [], []
for line in open(ROOT / "properties.jsonl"):
    p = json.loads(line)
    pid = p["id"]
    if glob.glob(str(ROOT / "pbt" / "checks" / (pid.lower() + "_*.py"))) and pid in TECH:
        checks.append({"property": pid, "quick_cmd": "python3 check.py %s --tier quick" % pid,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid,
                       "technique": TECH[pid][0], "level": "exploration", "level_note": TECH[pid][1]})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 setup_check.py", "checks": checks, "not_applicable": na,
     "notes": "Property-based testing with Hypothesis 6.170 (loaded from /opt/veriftools) driving /repo's current tree under /opt/venv/bin/python; no build step and no hooks. See DESIGN.md."}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", len(na), "not claimed")
