import sys, os
sys.path.insert(0, os.path.dirname(__file__))
from extract import extract
from prog import Program
import ev
from term import *
import term
class Namer:
    def __init__(s): s.n={}; s.out=[]
    def name(s,t):
        if t in s.n: return s.n[t]
        k=f"t{len(s.n)}"; s.n[t]=k
        return k
NM=Namer()
_orig=term.pp
def pp2(t, depth=12):
    if isinstance(t,T) and t in NM.n: return NM.n[t]
    r=_orig(t, 40)
    if isinstance(t,T) and len(r)>70 and t.op not in ("b",):
        k=NM.name(t); NM.out.append(f"      {k} := {r}"); return k
    return r
term.pp=pp2
ev.pp=pp2
globals()["pp"]=pp2
def flush():
    for l in NM.out: print(l)
    NM.out.clear()
def main():
    p = Program(extract())
    name = sys.argv[1]
    inl = set(sys.argv[2].split(",")) if len(sys.argv) > 2 else set()
    adt = None
    if "::" in name:
        adt, name = name.split("::")
    for b in p.find(name, adt=adt, one=False):
        print("=====", b, b.id)
        e = ev.Ev(p, inline=inl, inline_all="*" in inl, private="p" in inl, opaque={x[1:] for x in inl if x.startswith("-")})
        r = e.function(b)
        for x in e.events:
            if "-q" in sys.argv and x.kind in ("lwrite", "assert"): continue
            z=repr(x); flush(); print("  ", z)
        z=repr(r); flush(); print("  RET", z)
        for m, (i, vs, lg, _) in e.mus.items():
            z=f"  MU {m!r} init {i!r} next "+"; ".join(ppb(c)+" -> "+repr(v) for c, v in vs); flush(); print(z)
if __name__ == "__main__":
    main()
