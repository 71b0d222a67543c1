"""Writes /verif/MANIFEST.json from the rules present."""
import importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from tools.manifest_notes import NOTES, NA, TECH
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(H, "rules", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd="python3 /verif/check.py %s" % p, thorough_cmd="python3 /verif/check.py %s --thorough" % p,
                           technique=TECH.get(p, TECH["*"]), level="other", level_note=NOTES.get(p, "") + NOTES["*"]))
    else:
        na.append(dict(property=p, reason=NA.get(p, "No check has been built for it yet.")))
json.dump(dict(version=1, setup_cmd="python3 -c pass", checks=checks, not_applicable=na), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks;", [x["property"] for x in na])
