"""Writes /verif/DESIGN.md from tools/DESIGN.in.md, the rules' explanations, known_findings.txt and the planted bugs."""
import glob, json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from tools.manifest_notes import NA, BOUND
from sa import report
import importlib
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
t = open(os.path.join(H, "tools", "DESIGN.in.md")).read()
out, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(H, "rules", i.lower() + ".py")
    if not os.path.exists(f):
        na.append("* **%s** %s: %s" % (i, p["title"], NA.get(i, "no check has been built for it.")))
        continue
    importlib.import_module("rules." + i.lower())
    out.append("### %s: %s\n\n%s\n\nRules: %s.%s\n" % (i, p["title"], report.EXPLAIN[i], ", ".join("`%s`" % x for x in re.findall(r'@rule\("%s", "([^"]+)"' % i, open(f).read())), (" " + BOUND[i]) if i in BOUND else ""))
kf = [l.strip() for l in open(os.path.join(H, "known_findings.txt"))]
fixed = ["* %s (%s, `%s`)" % (m.group(3), m.group(1), m.group(2)) for m in (re.match(r"fixed: property=(\S+) (\S+) (.*)", l) for l in kf) if m]
known = ["* %s, %s / %s: %s" % m.groups() for m in (re.match(r"known: property=(\S+) rule=(\S+) instance=(.*?) :: (.*)", l) for l in kf) if m]
seeds = ["| seed | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    seeds.append("| %s | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"], d["what_it_breaks"], d.get("caught_by", d["property"])))
for k, v in dict(PROPS="\n".join(out), NA="\n".join(na), FIXED="\n".join(fixed), KNOWN="\n".join(known) or "none", SEEDS="\n".join(seeds)).items():
    t = t.replace("@@%s@@" % k, v)
open(os.path.join(H, "DESIGN.md"), "w").write(t)
print(len(out), "decided", len(na), "not", len(fixed), "fixed", len(known), "known", len(seeds) - 2, "seeds")
