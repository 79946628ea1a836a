"""Undo renames.  Types, fields, variants and functions that vanished from the
confirmed tree are paired with those that appeared in the current one: same
place, same types, same shape.  The facts are then rewritten with the confirmed
names, so that what is compared is what the code does, not what it is called.
A pairing can only make two functions comparable; it never makes them equal."""
import json, os, re
from collections import Counter, defaultdict

STORE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "symbols.json")


def lastid(p):
    return p.split("::")[-1]


def short(s):
    return re.sub(r"\b[a-z_]\w*::", "", s)


def callees(b):
    c = Counter()
    for blk in b["blocks"]:
        t = blk["t"]
        if t and t[0] == "call" and "fn" in t[1]:
            c[t[1]["fn"].get("name") or ""] += 1
        for s in blk["s"]:
            if isinstance(s[1], list) and s[1]:
                c["#" + s[1][0] + (":" + str(s[1][1]) if s[1][0] in ("bin", "cbin") else "")] += 1
    return c


def symbols(crates):
    """crates: list of loaded fact files."""
    adts, fns = {}, {}
    for j in crates:
        ty = j["types"]
        for a in j["adts"]:
            if "_::" in a["id"] or lastid(a["id"]).startswith("Crepe"):
                continue
            adts[a["id"]] = [j["crate"], a["enum"], [[v["name"], [[f[0], short(ty[f[1]]["s"])] for f in v["fields"]]] for v in a["variants"]]]
        for b in j["bodies"]:
            if b.get("promoted") or b.get("derived") or b.get("kind") not in ("Fn", "AssocFn"):
                continue
            if "self" in b:
                scope = short(ty[b["self"]]["s"]) + "|" + short(b.get("trait") or "")
            elif b.get("trait_default"):
                scope = "trait " + short(b["trait_default"])
            else:
                scope = "::".join(b["id"].split("::")[1:-1])
                if "_::" in scope or "{impl" in scope:
                    continue
            sig = [short(ty[b["locals"][i][0]]["s"]) for i in range(b["nargs"] + 1)]
            fns.setdefault("|".join((j["crate"], scope, b["name"])), []).append([b["id"], sig, b.get("trait") or b.get("trait_default"), dict(callees(b))])
    return {"adts": adts, "fns": fns}


def words(sym):
    w = set()
    for i, (_, _, vs) in sym["adts"].items():
        w.add(lastid(i))
    return w


def similar(a, b):
    a, b = Counter(a), Counter(b)
    n = sum((a | b).values())
    return 1.0 if n == 0 else sum((a & b).values()) / n


class Renames:
    def __init__(self, base, cur):
        self.paths = {}         # full path now -> full path confirmed
        self.fields = {}        # (adt id now, field now) -> confirmed
        self.variants = {}      # (adt id now, variant now) -> confirmed
        self.vsets = {}         # variant names now -> {variant now: confirmed}
        self.log = []
        b, c = base["adts"], cur["adts"]
        gone = [i for i in b if i not in c]
        new = [i for i in c if i not in b]
        bw, cw = words(base), words(cur)
        mask = {lastid(i) for i in gone if lastid(i) not in cw} | {lastid(i) for i in new if lastid(i) not in bw}
        rx = re.compile(r"\b(" + "|".join(map(re.escape, sorted(mask))) + r")\b") if mask else None
        m = lambda s: rx.sub("?", s) if rx else s
        pair = {i: i for i in c if i in b}
        # moved, then renamed
        for i in new:
            l = [g for g in gone if b[g][0] == c[i][0] and lastid(g) == lastid(i)]
            if len(l) == 1 and sum(lastid(x) == lastid(i) for x in new) == 1:
                pair[i] = l[0]

        def form(rec, own):
            return (rec[0], rec[1], tuple((v if v != own else "", tuple((f, m(t)) for f, t in fs)) for v, fs in rec[2]))

        def loose(rec, own):
            return (rec[0], rec[1], tuple(tuple(m(t) for f, t in fs) for v, fs in rec[2]))
        for key in (form, loose):
            g = [x for x in gone if x not in pair.values()]
            n = [x for x in new if x not in pair]
            fg, fn = defaultdict(list), defaultdict(list)
            for x in g:
                fg[key(b[x], lastid(x))].append(x)
            for x in n:
                fn[key(c[x], lastid(x))].append(x)
            for k, xs in fn.items():
                ys = fg.get(k, ())
                same = [y for y in ys if y.rpartition("::")[0] == xs[0].rpartition("::")[0]]
                if len(xs) == 1 and (len(ys) == 1 or len(same) == 1):
                    pair[xs[0]] = (same or ys)[0]
        for i, o in pair.items():
            if i != o:
                self.paths[i] = o
                self.log.append(f"type {i} is {o}")
            vs, ws = c[i][2], b[o][2]
            if len(vs) == len(ws):
                vn, wn = [v for v, _ in vs], [w for w, _ in ws]
                for (v, f1), (w, f0) in zip(vs, ws):
                    if v != w and v not in wn and w not in vn and [m(t) for _, t in f1] == [m(t) for _, t in f0]:
                        self.variants[i, v] = w
                        self.paths[i + "::" + v] = o + "::" + w
                        if c[i][1]:
                            self.log.append(f"variant {i}::{v} is {w}")
                if c[i][1] and any((i, v) in self.variants for v in vn):
                    self.vsets[tuple(vn)] = {v: self.variants.get((i, v), v) for v in vn}
            byname = {w: f for w, f in ws}
            for v, f1 in vs:
                w = self.variants.get((i, v), v)
                f0 = byname.get(w) if c[i][1] else (ws[0][1] if ws else None)
                if not f0:
                    continue
                n1, n0 = [f for f, _ in f1], [f for f, _ in f0]
                lost = [(p, f, m(t)) for p, (f, t) in enumerate(f0) if f not in n1]
                for p, (f, t) in enumerate(f1):
                    if f in n0:
                        continue
                    l = [x for x in lost if x[2] == m(t)]
                    at = [x for x in l if x[0] == p]
                    if at or len(l) == 1 or len(l) == sum(m(t2) == m(t) for f2, t2 in f1 if f2 not in n0):
                        x = (at or l)[0]
                        lost.remove(x)
                        self.fields[i, f] = x[1]
                        self.log.append(f"field {i}.{f} is {x[1]}")
        # functions
        adtname = {lastid(i): lastid(o) for i, o in pair.items() if i != o and lastid(i) != lastid(o)}
        rx2 = re.compile(r"\b(" + "|".join(map(re.escape, sorted(adtname))) + r")\b") if adtname else None
        back = lambda s: rx2.sub(lambda z: adtname[z[0]], s) if rx2 else s
        cf = {}
        for k, l in cur["fns"].items():
            cf.setdefault(back(k), []).extend([[i, [back(s) for s in sig], tr, sh] for i, sig, tr, sh in l])
        bf = base["fns"]
        gonef = {k: l[0] for k, l in bf.items() if k not in cf and len(l) == 1}
        newf = {k: l[0] for k, l in cf.items() if k not in bf and len(l) == 1}
        cand = []
        for k, n in newf.items():
            cr, scope, name = k.split("|")[0], "|".join(k.split("|")[1:-1]), k.split("|")[-1]
            for q, g in gonef.items():
                cr0, scope0, name0 = q.split("|")[0], "|".join(q.split("|")[1:-1]), q.split("|")[-1]
                if cr != cr0:
                    continue
                free = "{impl" not in n[0] and "{impl" not in g[0] and n[2] is None and g[2] is None
                if scope != scope0 and not (free and name == name0):
                    continue
                s = similar(n[3], g[3])
                if n[1] == g[1] and s >= 0.5 or sorted(n[1]) == sorted(g[1]) and s >= 0.8 or free and name == name0 and n[1] == g[1]:
                    cand.append((s, k, q))
        cand.sort(key=lambda x: -x[0])
        for s, k, q in cand:
            if k in newf and q in gonef:
                rivals = [x for x in cand if x != (s, k, q) and (x[1] == k and x[2] in gonef or x[2] == q and x[1] in newf) and x[0] >= s - 0.05]
                if rivals:
                    continue
                n, g = newf.pop(k), gonef.pop(q)
                old = lastid(g[0])
                free = "{impl" not in n[0]
                self.paths[n[0]] = g[0] if free and n[2] is None else n[0].rpartition("::")[0] + "::" + old
                self.log.append(f"function {n[0]} is {g[0]}")
                if n[2]:
                    t = n[2].split("<")[0]
                    if not t.startswith("powdr_"):
                        t = k.split("|")[0] + "::" + t
                    self.paths[t + "::" + lastid(n[0])] = t + "::" + old
        self.any = bool(self.paths or self.fields or self.variants)
        # types are printed without the name of their own crate
        for k, v in list(self.paths.items()):
            k2, v2 = k.partition("::")[2], v.partition("::")[2]
            if k.split("::")[0] == v.split("::")[0] and k2 and "{" not in k2 and ("::" in k2 or k2[0].isupper()):
                self.paths.setdefault(k2, v2)

    # ---------------------------------------------------------- rewriting
    def apply(self, j):
        if not self.any:
            return j
        keys = sorted(self.paths, key=len, reverse=True)
        rx = re.compile(r"(?<![\w:])(" + "|".join(map(re.escape, keys)) + r")(?!\w)") if keys else None
        tails = {lastid(k) for k in keys}
        trx = re.compile("|".join(map(re.escape, tails))) if tails else None
        memo = {}

        def st(s):
            r = memo.get(s)
            if r is None:
                r = s
                if rx and trx.search(s):
                    r = rx.sub(lambda z: self.paths[z[1]], s)
                memo[s] = r
            return r

        def go(x):
            if isinstance(x, str):
                return st(x)
            if isinstance(x, list):
                if x and x[0] == "." and len(x) == 3 and isinstance(x[2], str):
                    return [".", self.fields.get((x[2], x[1]), x[1]), st(x[2])]
                if x and x[0] == "adt" and len(x) == 4 and isinstance(x[1], str):
                    return ["adt", st(x[1]), st(self.variants.get((x[1], x[2]), x[2])), [self.fields.get((x[1], f), f) for f in x[3]]]
                if x and x[0] == "discr" and len(x) == 3:
                    vs = self.vsets.get(tuple(v for _, v in x[2]))
                    return ["discr", go(x[1]), [[d, vs[v] if vs else v] for d, v in x[2]]]
                return [go(y) for y in x]
            if isinstance(x, dict):
                if "p" in x and "l" in x and isinstance(x["p"], list):
                    p = []
                    for n, e in enumerate(x["p"]):
                        if e[0] == "as":
                            nx = x["p"][n + 1] if n + 1 < len(x["p"]) else None
                            if nx and nx[0] == ".":
                                e = ["as", self.variants.get((nx[2], e[1]), e[1])]
                            else:
                                l = {w for (_, v), w in self.variants.items() if v == e[1]}
                                e = ["as", l.pop()] if len(l) == 1 else e
                            p.append(e)
                        else:
                            p.append(go(e))
                    return {k: p if k == "p" else v if k == "l" else go(v) for k, v in x.items()}
                if "c" in x and isinstance(x["c"], dict) and str(x["c"].get("s", "")).startswith('"'):
                    return x        # a string of the program
                if "def" in x and "name" in x and x["def"] in self.paths:
                    old = lastid(self.paths[x["def"]])
                    r = {k: go(v) for k, v in x.items()}
                    r["name"] = old
                    if "p" in x:
                        r["p"] = r["p"].rpartition("::")[0] + "::" + old
                    return r
                return {k: go(v) for k, v in x.items()}
            return x
        out = {k: v if k in ("crate",) else go(v) for k, v in j.items() if k not in ("adts", "bodies")}
        out["adts"] = []
        for a in j["adts"]:
            r = dict(a, id=st(a["id"]))
            r["variants"] = [{"name": self.variants.get((a["id"], v["name"]), v["name"]),
                              "fields": [[self.fields.get((a["id"], f[0]), f[0])] + f[1:] for f in v["fields"]]} for v in a["variants"]]
            out["adts"].append(r)
        out["bodies"] = []
        for b in j["bodies"]:
            r = go(b)
            if b["id"] in self.paths:
                r["name"] = lastid(self.paths[b["id"]])
            out["bodies"].append(r)
        return out

def save(crates, path=STORE):
    with open(path, "w") as f:
        json.dump(symbols(crates), f, separators=(",", ":"), sort_keys=True)
        f.write("\n")


def undo(crates):
    """-> (fact files with the confirmed names, log)"""
    if not os.path.exists(STORE):
        return crates, []
    r = Renames(json.load(open(STORE)), symbols(crates))
    if not r.any:
        return crates, []
    return [r.apply(j) for j in crates], r.log
