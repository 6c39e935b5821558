#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/spec/*.json-like python tables"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import spec
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in spec.PROPS:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["q"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], state=[dict(name=a, meaning=b, where=c) for a, b, c in p.get("state", [])],
                              mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                              observe_at=p.get("observe", []), hook_needed=None))
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in spec.PROPS:
    if "na" in p:
        na.append(dict(property=p["id"], reason=p["na"]))
    else:
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"],
                           thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                           technique=p["technique"], level="other", level_note=p["note"]))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na, notes=spec.NOTES)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(checks), "claimed", len(na), "not applicable")
