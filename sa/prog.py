"""The resolved program: MIR facts of the nine crates, indexed."""
import glob, json, os, re
import rename
import sroa
from collections import defaultdict

STD = ("core::", "alloc::", "std::", "itertools::", "hashbrown::")


def last(p):
    p = re.sub(r"<[^<>]*>", "", p)
    while "<" in p and ">" in p:
        q = re.sub(r"<[^<>]*>", "", p)
        if q == p:
            break
        p = q
    return p.strip(":").split("::")[-1]


class Body:
    def __init__(self, d, crate, prog):
        self.__dict__.update(d)
        self.crate = crate
        self.prog = prog
        self.trait = d.get("trait")
        self.selfty = d.get("self")
        self.parent = d.get("parent")

    def ty(self, i):
        return self.prog.types[self.crate][i]

    def tys(self, i):
        return self.ty(i)["s"]

    @property
    def self_adt(self):
        """Last segment of the Self ADT of the impl (or None)."""
        if self.selfty is None:
            return None
        t = self.ty(self.selfty)
        while t["k"] == "ref":
            t = self.ty(t["args"][0])
        if t["k"] == "adt":
            return last(t["adt"])
        return t["s"]

    @property
    def key(self):
        """Refactoring-stable name: Self::fn, Self::Trait::fn or fn."""
        if self.kind == "Closure":
            p = self.prog.bodies.get(self.parent)
            return (p.key if p else self.parent) + "::closure"
        if getattr(self, "trait_default", None):
            return last(self.trait_default) + "::" + self.name
        if self.self_adt:
            return self.self_adt + "::" + self.name
        return self.name

    def __repr__(self):
        return f"<{self.key} {self.file}:{self.line}>"


class Program:
    def __init__(self, d):
        self.dir = d
        self.types, self.bodies, self.adts, self.impls, self.consts = {}, {}, {}, [], []
        self.nfun = 0
        raw = []
        for f in sorted(glob.glob(os.path.join(d, "powdr_*.json"))):
            if not f.endswith((".bin.json", ".test.json")):
                raw.append(json.load(open(f)))
        self.symbols = rename.symbols(raw)
        raw, self.renames = rename.undo(raw)
        for j in raw:
            c = j["crate"]
            self.types[c] = j["types"]
            for b in j["bodies"]:
                sroa.split(bd := Body(b, c, self))
                self.bodies[b["id"]] = bd
            for a in j["adts"]:
                a["crate"] = c
                self.adts[a["id"]] = a
            for i in j.get("consts", ()):
                i["crate"] = c
                self.consts.append(i)
            for i in j["impls"]:
                i["crate"] = c
                self.impls.append(i)
        import term
        names = defaultdict(list)
        for a in self.adts.values():
            if len(a.get("variants", ())) > 1:
                names[last(a["id"])].append(tuple(v["name"] if isinstance(v, dict) else v[0] for v in a["variants"]))
        for n, vs in names.items():
            if len(vs) == 1 and n not in term.VARIANTS:
                term.VARIANTS[n] = vs[0]
        self.by_name = defaultdict(list)
        self.closures = defaultdict(list)
        for b in self.bodies.values():
            if b.promoted:
                continue
            self.nfun += 1
            if b.kind == "Closure":
                self.closures[b.parent].append(b)
            else:
                self.by_name[b.name].append(b)

    def find(self, name, adt=None, trait=None, file=None, one=True):
        r = []
        for b in self.by_name.get(name, ()):
            if adt is not None and b.self_adt != adt:
                continue
            if trait is not None:
                tr = b.trait or getattr(b, "trait_default", None)
                if trait == "" and tr:
                    continue
                if trait != "" and (not tr or last(tr) != trait):
                    continue
            if file is not None and file not in b.file:
                continue
            r.append(b)
        if one:
            return r[0] if len(r) == 1 else None
        return r

    def adt(self, name, crate=None):
        r = [a for a in self.adts.values() if last(a["id"]) == name and (crate is None or a["crate"] == crate)]
        return r[0] if len(r) == 1 else None
