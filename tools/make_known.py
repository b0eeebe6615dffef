"""Regenerate known_findings.json: 'fixed' entries from the fix: commits of /repo (property named in the commit body as
'Property: Cxx', older ones in OLD), 'finding' entries from tools/findings.json.  Run by hand, never by a check."""
import json, os, re, subprocess
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
C08 = ("d39f216", "a32711a", "f74b31c")
C28 = ("be291b7", "87a4f64", "0331ab6")
C22 = ("92591f5",)
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h%x00%s%x00%b%x01"], capture_output=True, text=True).stdout
out = []
for rec in log.split("\x01"):
    rec = rec.strip("\n")
    if not rec:
        continue
    h, s, b = rec.split("\x00")
    if not s.startswith("fix:"):
        continue
    m = re.search(r"Property: (C\d\d)", b)
    pid = m.group(1) if m else ("C08" if h in C08 else "C28" if h in C28 else "C22" if h in C22 else "C01")
    out.append({"kind": "fixed", "property": pid, "commit": h, "text": "fixed: property=%s %s %s" % (pid, h, s[5:])})
p = os.path.join(ROOT, "tools", "findings.json")
if os.path.exists(p):
    for f in json.load(open(p)):
        out.append(dict(f, kind="finding"))
with open(os.path.join(ROOT, "known_findings.json"), "w") as f:
    f.write("[\n" + ",\n".join(json.dumps(o) for o in out) + "\n]\n")
print(len(out), "entries")
