#!/usr/bin/env python3
"""writes MANIFEST.json from the specs that exist and the tables below"""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT); sys.setrecursionlimit(20000)
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {
}
TODO = "no static check has been built for it yet"
checks = []; na = []
for i in ids:
    f = os.path.join(ROOT, "specs", i.lower() + ".py")
    if not os.path.exists(f) or i in NA:
        na.append({"property": i, "reason": NA.get(i, TODO)}); continue
    m = importlib.import_module("specs." + i.lower())
    if getattr(m, "NOT_CLAIMED", None): na.append({"property": i, "reason": m.NOT_CLAIMED}); continue
    checks.append({"property": i, "quick_cmd": "python3 -m engine.run " + i, "thorough_cmd": "python3 -m engine.run %s --thorough" % i, "evidence_file": "evidence/%s.json" % i,
                   "technique": getattr(m, "TECHNIQUE", "path-sensitive relational abstract interpretation of MIR (static analysis) against stated obligations"), "level": m.LEVEL,
                   "level_note": getattr(m, "NOTE", None) or m.RULE})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Static analysis only: /repo's current source is compiled to MIR (cargo check with driver/ as rustc wrapper) and interpreted abstractly; nothing of /repo is executed. No hooks in /repo."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [n["property"] for n in na])
