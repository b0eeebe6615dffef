"""usage: tech.py ID "technique" "strength" - register the technique of a check"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "techniques.json")
t = json.load(open(p)); t[sys.argv[1]] = [sys.argv[2], sys.argv[3]]
json.dump(t, open(p, "w"), indent=0)
