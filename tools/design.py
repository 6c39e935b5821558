"""fills the tables of DESIGN.md from spec.py, known_findings.jsonl and seeded/*/meta.json (tools/DESIGN.in -> DESIGN.md)"""
import json, os, glob, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H)
import spec
s = open(H + "/DESIGN.in").read()
o = ["## Properties and how each is decided", ""]
for p in spec.PROPS:
    if p.get("na"):
        continue
    o += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], "", "*Quantifies over:* " + p["q"] + " *Beyond tests:* " + p["why"], "", "*Decided by:* " + p["technique"] + ".", ""]
    if p.get("design"): o += [p["design"].strip(), ""]
    o += ["*Bounds and trust:* " + p["note"], ""]
o += ["## Not applicable to static analysis here", ""]
for p in spec.PROPS:
    if p.get("na"):
        o += ["* **%s %s** - %s" % (p["id"], p["title"], p["na"])]
f = []
for l in open(V + "/known_findings.jsonl"):
    if l.strip():
        d = json.loads(l)
        f.append("* %s %s: %s" % (d["status"], d["property"], d["what"].split(" ", 3)[-1] + " (commit %s)" % d["commit"] if d["status"] == "fixed" else d["what"]))
t = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m)); n = m.split("/")[-2]
    t.append("| %s | %s | %s | %s |" % (n, d["property"], d["needs"], d.get("caught_by", d["property"])))
s = s.replace("@@PROPS@@", "\n".join(o)).replace("@@FINDINGS@@", "\n".join(f)).replace("@@SEEDED@@", "\n".join(t))
open(V + "/DESIGN.md", "w").write(s)
