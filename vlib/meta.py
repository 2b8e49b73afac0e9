#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py, and
known-findings.json's list of repairs from FIXED."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE, FIXED, KNOWN, HOW
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = ("bounded symbolic execution of nvc's LLVM IR, every path enumerated "
        "and every assertion decided by z3")

with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier",
                               "why_tests_cant", "anchors")}
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(q) + "\n")

na = {x["property"] for x in NOT_APPLICABLE}
m = {"version": 1, "setup_cmd": "python3 vlib/build.py", "checks": [],
     "not_applicable": NOT_APPLICABLE,
     "notes": "No hooks: the checks instrument the compiled code of /repo and "
     "change nothing in it.  See DESIGN.md."}
for p in PROPS:
    if p["id"] in na:
        continue
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": f"python3 vlib/run.py {p['id']} --tier quick",
        "thorough_cmd": f"python3 vlib/run.py {p['id']} --tier thorough",
        "technique": TECH, "level": "other", "level_note": p["level_note"]})
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
with open(V + "/known-findings.json", "w") as f:
    json.dump({"known": KNOWN, "fixed": [
        f"fixed: property={p} {c} {w}" for p, c, w in FIXED]}, f, indent=1)
    f.write("\n")

# the part of DESIGN.md which follows from these tables
class Unit(dict):
    def __init__(self, name, **kw):
        super().__init__(kw, name=name)
import builtins
builtins.Unit = Unit
sys.path.insert(0, V + "/harness")
from units import UNITS
seeds = {}
for d in sorted(os.listdir(V + "/seeded")) if os.path.isdir(V + "/seeded") else ():
    with open(f"{V}/seeded/{d}/meta.json") as f:
        x = json.load(f)
    seeds.setdefault(x["property"], []).append((d, x))
out = []
for p in PROPS:
    i = p["id"]
    out.append(f"### {i}: {p['title']}\n\n{p['statement']}\n")
    out.append(HOW[i] + "\n")
    out.append(f"Bounds: {p['level_note']}\n")
    tops = {}
    for u in UNITS.get(i, ()):
        tops.setdefault((u.get("vhdl") or u.get("c"))[-1], []).append(u["name"])
    out.append("Units: " + "; ".join(
        f"`{f}`: " + ", ".join(n) for f, n in tops.items()) + "\n")
    for k in KNOWN:
        if k["property"] == i:
            out.append(f"Known finding (unit {k['unit']}): {k['what']}.\n")
    n = sum(1 for q, c, w in FIXED if q == i)
    if n:
        out.append(f"Defects found and repaired: {n} (see known-findings.json).\n")
    if i in seeds:
        out.append("Planted bugs (all caught by this check): " + "; ".join(
            f"`{d}` ({x['what_it_breaks']})" for d, x in seeds[i]) + ".\n")
with open(V + "/DESIGN.md") as f:
    t = f.read()
a, b = "<!-- generated by vlib/meta.py -->\n", "<!-- end -->"
t = t[:t.index(a) + len(a)] + "\n".join(out) + t[t.index(b):]
with open(V + "/DESIGN.md", "w") as f:
    f.write(t)
