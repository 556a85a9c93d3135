#!/usr/bin/env python3
"""writes DESIGN.md: tools/design_head.md, a section per property (from properties.jsonl and the specs), the planted bugs, tools/design_tail.md"""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT); sys.setrecursionlimit(20000)
rd = lambda n: open(os.path.join(ROOT, "tools", n)).read()
man = json.load(open(os.path.join(ROOT, "MANIFEST.json"))); chk = {c["property"]: c for c in man["checks"]}; na = {c["property"]: c["reason"] for c in man["not_applicable"]}
seeds = {}
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    f = os.path.join(ROOT, "seeded", d, "meta.json")
    if os.path.exists(f): m = json.load(open(f)); seeds.setdefault(m["property"], []).append((d, m))
missed = set(rd("missed.txt").split()) if os.path.exists(os.path.join(ROOT, "tools", "missed.txt")) else set()
out = [rd("design_head.md"), "## The properties, one by one\n"]
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("*Ranges over*: %s. *Why tests cannot settle it*: %s" % (p["quantifier"]["text"], p["why_tests_cant"]))
    if i in na: out.append("\n**Not applicable.** %s\n" % na[i]); continue
    m = importlib.import_module("specs." + i.lower())
    out.append("\n*Decided by* (%s; `specs/%s.py`): %s" % (m.LEVEL, i.lower(), m.RULE))
    if getattr(m, "NOTE", None): out.append("\n*Bounds and assumptions*: %s" % m.NOTE)
    out.append("\n*Planted bugs*: %s\n" % "; ".join("`%s` (%s)" % (d, "missed" if d in missed else "caught") for d, _ in seeds.get(i, [])))
out.append("## Planted bugs: which check catches which\n\nEach is in `seeded/<id>/` with a demonstration. A bug is caught by the check of the property it was planted for;\nthe checks of other properties may report it too (for instance C15 and C16 re-check the C12-C14 contracts they rest on).\n")
out.append("| bug | property | caught by its check | needs |\n|---|---|---|---|")
for i in sorted(seeds):
    for d, m in seeds[i]: out.append("| %s | %s | %s | %s |" % (d, i, "no" if d in missed else "yes", str(m.get("needs", "")).replace("|", "/").replace("\n", " ")))
out.append("\n" + rd("design_tail.md"))
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
