#!/usr/bin/env python3
"""Calls in the analysed bodies of a contract that leave no trace in its summary: blind spots of the normal form."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sa")); sys.setrecursionlimit(100000)
import contract, extract, summ, judge
from collections import Counter
from prog import Program
p = Program(extract.extract()); c = contract.load(); known = {v["key"] for v in c.values()}
tot = Counter()
for k, b in contract.cids(p).items():
    if k not in c: continue
    s = contract.summarise(p, b, known)
    words = set()
    for n in c[k]["nodes"]:
        for x in n[1:]:
            if isinstance(x, dict) and isinstance(x.get("v"), str):
                words.add(x["v"].split("::")[-1].split(":")[-1])
        words.add(n[0])
    miss = set()
    for i in s.analysed:
        q = p.bodies.get(i)
        if q is None: continue
        for blk in q.blocks:
            t = blk["t"]
            if t[0] == "call" and "fn" in t[1]:
                f = t[1]["fn"]; n = f.get("name") or ""
                d = f.get("def") or ""
                if n and n not in words and d not in s.analysed and n not in judge.QUIETCALL:
                    miss.add((n, d.split("::")[0]))
    for m in miss: tot[m] += 1
    ws = [m for m in miss if m[1].startswith(("powdr", "<powdr"))]
    if ws: print(k, sorted(ws))
for m, n in tot.most_common():
    if not m[1].startswith(("powdr", "<powdr")): print(n, m)
