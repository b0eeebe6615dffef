"""Refresh the tables at the end of DESIGN.md (planted bugs and what catches them; repaired defects).  Run by hand."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
for mark in ("@@TABLES@@", "## Planted bugs"):
    if mark in s:
        s = s[:s.index(mark)]
det = json.load(open(os.path.join(ROOT, "tools", "detection.json")))
out = ["## Planted bugs", "", "Caught by the quick tier of the check of the property they break (`tools/detection.json`).", "", "| bug | check | result | s | needs |", "|---|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", i, "meta.json")))
    d = det.get(i, {})
    out.append("| %s | %s | %s | %s | %s |" % (i, m["property"], d.get("quick", "not run"), d.get("wall_s", ""), m["needs"].replace("|", "/")))
out += ["", "## Defects of the repository found by the checks", "", "All are repaired by `fix:` commits except the findings at the end.", ""]
for e in json.load(open(os.path.join(ROOT, "known_findings.json"))):
    out.append("* " + (e["property"] + " " + e["commit"] + ": " + e["text"].split(" ", 3)[3] if e["kind"] == "fixed" else "**open** " + e["property"] + " " + e["id"] + ": " + e["text"]))
open(p, "w").write(s + "\n".join(out) + "\n")
