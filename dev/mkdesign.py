#!/usr/bin/env python3
"""Assemble DESIGN.md from its hand-written parts and the property list."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/sa")
import assign, contract, items
c = contract.load(); it = items.load()
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = json.load(open(V + "/MANIFEST.json"))
na = {x["property"] if "property" in x else x["id"]: x["reason"] for x in man["not_applicable"]}
D = {}
exec(open(V + "/dev/design_notes.py").read(), D)
out = [open(V + "/dev/design_head.md").read().rstrip(), "", "## Per property", "",
       "Every claimed property is decided by the contracts of the functions listed in `sa/assign.py` for it (number below), the item rules, and the "
       "hand-written rules named. *Reach* says why this can decide what a test cannot; *limit* what stays open.", ""]
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}")
    if i in na:
        out += [f"Not applicable: {na[i]}", ""]
        continue
    n = len(assign.contracts_of(i, c)); m = len(assign.contracts_of(i, it))
    d = D["NOTES"][i]
    out.append(f"*{n} behaviour contracts, {m} items.* " + " ".join(x.strip() for x in d.strip().split("\n")))
    out.append("")
out += [open(V + "/dev/design_tail.md").read().rstrip(), ""]
seeds = sorted(os.listdir(V + "/seeded"))
caught = json.load(open(V + "/dev/caught.json")) if os.path.exists(V + "/dev/caught.json") else {}
out += ["## Planted bugs and what catches them", "", "| seed | breaks | needs | caught by |", "|---|---|---|---|"]
for s in seeds:
    m = json.load(open(f"{V}/seeded/{s}/meta.json"))
    out.append(f"| {s} | {m['property']}: {m['what_it_breaks']} | {m['needs']} | {' '.join(caught.get('S.' + s, ['?']))} |")
lab = {k: v for k, v in caught.items() if k.startswith("B.")}
if lab:
    out += ["", f"Further planted bugs (edits only, `dev/bugs/*.py`, judged from extracted facts by `dev/lab.py`): {sum(1 for v in lab.values() if v)} of {len(lab)} caught.", "",
            "Missed: " + ", ".join(sorted(k[2:] for k, v in lab.items() if not v)) + ".", "", "Caught:", ""]
    out.append("; ".join(f"{k[2:]} ({' '.join(v)})" for k, v in sorted(lab.items()) if v) + ".")
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
