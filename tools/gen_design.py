#!/usr/bin/env python3
"""Writes DESIGN.md from its parts (run by hand)."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, "tools")
sys.path.insert(0, T)
from design_props import P
from notes import NOTES
head = open(os.path.join(T, "design_head.md")).read()
tail = open(os.path.join(T, "design_tail.md")).read()
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
assert set(P) == {p["id"] for p in props}, set(P) ^ {p["id"] for p in props}
out = [head, "## 2. The properties\n"]
out.append("The family of technique applies to every property; `not_applicable` is empty.\n")
for p in props:
    what, oracle, load, why = P[p["id"]]
    ev = os.path.join(T, "costs.json")
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("* **Monitored:** %s." % what)
    out.append("* **Oracle:** %s." % oracle)
    out.append("* **Workload, bounds:** %s." % load)
    out.append("* **Why beyond the tests:** %s." % why)
    cost = json.load(open(ev)).get(p["id"]) if os.path.exists(ev) else None
    if cost:
        out.append("* **Quick run:** %d evaluations, %d of them distinct and non-trivial, %.0f s." % tuple(cost))
    out.append("* **Trust:** %s\n" % NOTES[p["id"]][1])
out.append(tail)
out.append("## 6. Planted bugs\n")
out.append("Each was written from a property's text and the code; all compile and pass the repository's tests.\n")
out.append("| bug | what it breaks | needs | caught by |\n|---|---|---|---|")
caught = json.load(open(os.path.join(T, "caught.json")))
S = os.path.join(V, "seeded")
for b in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, b, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (b, m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|"), caught.get(b, "not tried")))
out.append("")
extra = os.path.join(T, "design_bugs.md")
if os.path.exists(extra):
    out.append(open(extra).read())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
