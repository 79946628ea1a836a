"""Facts about items that have no function body of their own: constant values,
derived comparison impls, derived serde impls."""
import json, os, re
from collections import defaultdict

STORE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "items.json")
COMPARE = ("PartialEq", "PartialOrd", "Ord", "Hash", "Clone")


def lastseg(s):
    return re.sub(r"<.*", "", re.sub(r"\b[a-z_]\w*::", "", s)).strip("&'_ ")


def literals(v):
    v = re.sub(r"\bu(\d+)::MAX", lambda m: str(2 ** int(m.group(1)) - 1), v)
    return re.findall(r'"(?:[^"\\]|\\.)*"|(?<![\w:<])-?\d+|\b(?:true|false)\b|\'.\'', v)


def places(x):
    """Every place of a fact tree."""
    if isinstance(x, dict):
        if "l" in x and "p" in x:
            yield x
        for v in x.values():
            yield from places(v)
    elif isinstance(x, list):
        for v in x:
            yield from places(v)


def strings(x):
    if isinstance(x, dict):
        s = x.get("s")
        if isinstance(s, str) and s.startswith('"'):
            yield s
        for v in x.values():
            yield from strings(v)
    elif isinstance(x, list):
        for v in x:
            yield from strings(v)


def calls(b):
    for blk in b.blocks:
        t = blk["t"]
        if t and t[0] == "call" and isinstance(t[1], dict) and "fn" in t[1]:
            yield t[1]["fn"], t[2]


def reads(prog, adt, roots, depth=3):
    """Fields of `adt` projected in the roots, their closures and the local functions they call."""
    out, seen, work = set(), set(), [(r, 0) for r in roots]
    while work:
        r, d = work.pop()
        if r in seen or r not in prog.bodies:
            continue
        seen.add(r)
        b = prog.bodies[r]
        for p in places(b.blocks):
            for e in p["p"]:
                if e[0] == "." and len(e) > 2 and e[2] == adt:
                    out.add(e[1])
        for c in prog.closures.get(r, ()):
            work.append((c.id, d))
        if d < depth:
            for f, _ in calls(b):
                work.append((f.get("res") or f.get("def"), d + 1))
    return out


def collect(prog):
    out = {}
    for c in prog.consts:
        if "::_" in c["id"] or "{closure" in c["id"] or "val" not in c:
            continue
        lits = literals(c["val"])
        if not (c["pub"] or c.get("trait") or "[" in c.get("ty", "")) or not lits:
            continue
        k = "|".join([c["crate"].replace("powdr_", ""), lastseg(c.get("self", "")), lastseg(c.get("trait", "")), c["name"]])
        if k in out:
            k += "|" + c["file"]
        elif c.get("self", "").endswith("LargeInt"):
            k += "|" + c["file"]
        out["const|" + k] = {"file": c["file"], "line": c["line"], "val": lits}
    for i in prog.impls:
        tr = i.get("trait", "").split("::")[-1]
        t = prog.types[i["crate"]][i["self"]]
        if tr not in COMPARE or t["k"] != "adt" or not t["adt"].startswith("powdr_") or "::_" in t["s"] or not i["items"]:
            continue
        a = prog.adts.get(t["adt"])
        if a is None or "Crepe" in a["id"] or "crepe" in a["id"]:
            continue
        k = "impl|" + "|".join([a["crate"].replace("powdr_", ""), lastseg(a["id"].split("::")[-1]), tr])
        fields = sorted({f[0] for v in a["variants"] for f in v["fields"]})
        rd = fields if i["derived"] else sorted(reads(prog, a["id"], i["items"]))
        if k in out:
            k += "|" + i["file"]
        out[k] = {"file": i["file"], "line": i["line"], "derived": i["derived"], "fields": fields, "reads": rd}
    return out


def store(prog):
    d = collect(prog)
    for v in d.values():
        v.pop("line")
    with open(STORE, "w") as f:
        f.write("{\n" + ",\n".join(json.dumps(k) + ":" + json.dumps(v) for k, v in sorted(d.items())) + "\n}\n")
    print(len(d), "items")


def load():
    return json.load(open(STORE))


def serde(prog):
    """type -> {ser: ..., de: ...} of the derived serde impls."""
    out = {}
    for i in prog.impls:
        tr = i.get("trait", "").split("::")[-1]
        t = prog.types[i["crate"]][i["self"]]
        if tr not in ("Serialize", "Deserialize") or not i["derived"] or t["k"] != "adt" or not i["items"]:
            continue
        a = prog.adts.get(t["adt"])
        if a is None or "::_" in a["id"] or "serialize" in a["id"]:
            continue
        pre = i["items"][0]
        bs = [b for n, b in prog.bodies.items() if n == pre or n.startswith(pre + "::") or n.startswith(pre + "#")]
        d = {"file": i["file"], "line": i["line"], "names": set(), "reads": set(), "how": set(), "defaults": set(), "skips": set()}
        for b in bs:
            for f, args in calls(b):
                n = f["name"]
                full = f.get("def", "")
                if tr == "Serialize":
                    if n in ("serialize_field", "serialize_entry", "skip_field", "serialize_key"):
                        s = set(strings(args[1:2])) if n != "serialize_field" or len(args) > 2 else set()
                        d["skips" if n == "skip_field" else "names"] |= s
                    elif n.endswith("_variant") and n.startswith("serialize_"):
                        d["names"] |= set(strings(args[3:4]))
                    if n.startswith("serialize_") and n not in ("serialize_field", "serialize_entry"):
                        d["how"].add(n)
                    elif full.startswith("core::clone") or full.startswith("core::convert") or n in ("into", "from"):
                        d["how"].add("via " + n)
                else:
                    if b.name == "visit_str":
                        d["names"] |= set(strings(args))
                    if n.startswith("deserialize_"):
                        d["how"].add(n)
                    if b.name in ("visit_map", "visit_seq") and (n == "default" or n == "unwrap_or_default" or "default" in n):
                        d["defaults"].add(b.name)
            if tr == "Serialize":
                for p in places(b.blocks):
                    for e in p["p"]:
                        if e[0] == "." and len(e) > 2 and e[2] == a["id"]:
                            d["reads"].add(e[1])
        out.setdefault(a["id"], {"fields": [f[0] for v in a["variants"] for f in v["fields"]], "adt": a})["ser" if tr == "Serialize" else "de"] = d
    return out


if __name__ == "__main__":
    import sys
    sys.setrecursionlimit(100000)
    import extract
    from prog import Program
    p = Program(extract.extract())
    if len(sys.argv) > 1 and sys.argv[1] == "serde":
        for k, v in sorted(serde(p).items()):
            print(k, v["fields"])
            for s in ("ser", "de"):
                if s in v:
                    d = v[s]
                    print("   ", s, sorted(d["names"]), sorted(d["reads"]), sorted(d["how"]), sorted(d["defaults"]), sorted(d["skips"]))
    else:
        for k, v in collect(p).items():
            print(k, v)
