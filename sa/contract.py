"""Behaviour contracts: the summary of every interface function confirmed by
reading, compared (as terms, not text) with the summary of the current tree."""
import hashlib, json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from term import *
import term as TM
import ev, summ, judge, logic
from prog import last

STORE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "contracts.json")


def interface(b):
    """Functions other code (or a trait) can see: these carry contracts; everything
    else is analysed inside them."""
    if b.promoted or b.kind == "Closure" or getattr(b, "derived", False):
        return False
    if b.self_adt == "Crepe" or "crepe" in b.name:
        return False        # generated by the datalog macro
    return bool(b.pub or b.trait or getattr(b, "trait_default", None))


def cid(b):
    """Identity that survives moving, renaming of impl blocks and of locals."""
    s = b.crate.replace("powdr_", "") + "|"
    if b.selfty is not None:
        s += re.sub(r"\b[a-z_]\w*::", "", b.tys(b.selfty)) + "|"
    tr = getattr(b, "trait_ref", None) or b.trait or getattr(b, "trait_default", None)
    if tr:
        s += re.sub(r"\b[a-z_]\w*::", "", tr) + "|"
    s += b.name
    if b.selfty is None and not tr:
        s += "|" + "::".join(x for x in b.id.split("::")[1:-1] if not x.startswith("{"))
    return s


def generated_callees(prog):
    """Hand-written private functions called only from macro-generated code."""
    out = set()
    for b in prog.bodies.values():
        if getattr(b, "derived", False) or b.self_adt == "Crepe" or "crepe" in b.id.lower() or "_::" in b.id:
            out |= set(re.findall(r'"(powdr_[\w:{}#]+)"', json.dumps(b.blocks)))
    return out


def cids(prog):
    """contract id -> body, made unique by argument types, then by file."""
    groups = {}
    gen = generated_callees(prog)
    for b in prog.bodies.values():
        if interface(b) or b.id in gen and b.kind == "Fn" and not getattr(b, "derived", False) and "crepe" not in b.name and "_::" not in b.id:
            groups.setdefault(cid(b), []).append(b)
    out = {}
    for k, bs in groups.items():
        if len(bs) == 1:
            out[k] = bs[0]
            continue
        g2 = {}
        for b in bs:
            g2.setdefault(k + "|" + ",".join(re.sub(r"\b[a-z_]\w*::", "", b.tys(b.locals[i][0])) for i in range(b.nargs + 1)), []).append(b)
        for k2, b2 in g2.items():
            if len(b2) == 1:
                out[k2] = b2[0]
                continue
            for b in b2:
                k3 = k2 + "|" + b.file
                if k3 in out:
                    k3 += "|" + b.id
                out[k3] = b
    return out


def summarise(prog, b, known=None, opaque=()):
    """Everything that is not itself under contract is analysed inside its callers."""
    e = ev.Ev(prog, private=True, known=known, opaque=opaque)
    r = e.function(b)
    return summ.Summary(b, e, r)


def store(prog, path=STORE):
    out = {}
    ids = cids(prog)
    known = {b.key for b in ids.values()}
    for k, b in sorted(ids.items()):
        try:
            s = summarise(prog, b, known)
        except Exception as x:
            print("skip", k, type(x).__name__, str(x)[:80])
            continue
        d = summ.dump(s.raw)
        out[k] = {"key": b.key, "file": b.file, "nodes": d["nodes"], "roots": d["roots"], "params": b.nargs,
                  "shape": dict(sorted(judge.shape(prog, s.analysed).items()))}
    print(len(out), "contracts")
    with open(path, "w") as f:
        f.write("{\n" + ",\n".join(json.dumps(k) + ":" + json.dumps(v, separators=(",", ":")) for k, v in sorted(out.items())) + "\n}\n")


def vocabulary(terms):
    """Structural vocabulary of a summary: operators and opaque functions used."""
    out = {}
    for t in terms:
        for x in walk(t):
            if x.op == "call":
                n = "call:" + x.a[0]
            elif x.op in ("op", "agg"):
                n = x.op + ":" + str(x.a[0])
            elif x.op == "eff":
                n = "eff:" + x.a[0]
            else:
                n = x.op
            out.setdefault(n, set()).add(x)
    return out


def compare(base, cur):
    """-> None when equal, else a dict describing the difference."""
    r0, e0, a0, o0 = summ.normal(base)
    r1, e1, a1, o1 = summ.normal(cur)
    # an assertion is lost when no current one fails whenever it did
    bad1 = TM.OR(*[TM.tob(t.a[0]) for t in a1]) if a1 else TM.FALSE
    lost = [t for t in a0 if TM.AND(TM.tob(t.a[0]), TM.NOT(bad1)) != TM.FALSE]
    flip = [t for t in o0 - o1 if mk("order", t.a[1], t.a[0]) in o1 and mk("order", t.a[1], t.a[0]) not in o0]
    if r0 is r1 and e0 == e1 and not lost and not flip:
        return None
    v0 = vocabulary([r0] + list(e0))
    v1 = vocabulary([r1] + list(e1))
    return {"ret": (r0, r1) if r0 is not r1 else None, "lost": [t for t in e0 - e1], "gained": [t for t in e1 - e0],
            "asserts": lost, "order": flip, "newvoc": sorted(set(v1) - set(v0)), "lostvoc": sorted(set(v0) - set(v1))}


def delta(x, y, out, seen=None, lim=6):
    """Smallest differing sub-pairs of two terms."""
    seen = set() if seen is None else seen
    if x is y or len(out) >= lim or (id(x), id(y)) in seen:
        return
    seen.add((id(x), id(y)))
    if isinstance(x, T) and isinstance(y, T) and x.op == y.op and len(x.a) == len(y.a):
        n = len(out)
        if x.op in ("b",):
            deltab(x.a[0], y.a[0], out, seen, lim)
        elif x.op == "cases":
            if [l for _, l in x.a[0]] == [l for _, l in y.a[0]]:
                for (c, _), (d, _) in zip(x.a[0], y.a[0]):
                    if c != d:
                        deltab(c, d, out, seen, lim)
            elif len(x.a[0]) == len(y.a[0]):
                for (c, l), (d, m) in zip(x.a[0], y.a[0]):
                    delta(l, m, out, seen, lim)
        elif x.op == "exists":
            if x.a[0] != y.a[0]:
                delta(x.a[0], y.a[0], out, seen, lim)
            else:
                deltab(x.a[1], y.a[1], out, seen, lim)
        elif x.op == "comp":
            delta(x.a[0], y.a[0], out, seen, lim)
            delta(x.a[1], y.a[1], out, seen, lim)
            if x.a[2] != y.a[2]:
                deltab(x.a[2], y.a[2], out, seen, lim)
        else:
            for p, q in zip(x.a, y.a):
                delta(p, q, out, seen, lim)
        if len(out) == n and n < lim:
            out.append((x, y))
        return
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        for p, q in zip(x, y):
            if p != q:
                delta(p, q, out, seen, lim)
        return
    if x != y:
        out.append((x, y))


def deltab(f, g, out, seen, lim):
    if f == g:
        return
    s0, s1 = TM.support(f), TM.support(g)
    a, b = [x for x in s0 if x not in s1], [x for x in s1 if x not in s0]
    if a or b:
        for p in list(a):
            for q in list(b):
                if p.op == q.op and (p.op not in ("call", "is") or p.a[0] == q.a[0] or p.op == "is") and p in a and q in b:
                    a.remove(p)
                    b.remove(q)
                    delta(p, q, out, seen, lim)
        for p in a:
            out.append((p, "-"))
        for q in b:
            out.append(("-", q))
    else:
        out.append((B(f), B(g)))


def explain(df, lim=6):
    """Pair lost with gained effects and report the smallest differences."""
    out = []
    if df["ret"]:
        delta(df["ret"][0], df["ret"][1], out, None, lim)
    lost, gained = list(df["lost"]), list(df["gained"])
    for p in list(lost):
        for q in list(gained):
            if p.a[0] == q.a[0] and p in lost:
                lost.remove(p)
                gained.remove(q)
                delta(p, q, out, None, lim)
    for p in lost:
        out.append((p, "-"))
    for q in gained:
        out.append(("-", q))
    for t in df["asserts"]:
        out.append((t, "-"))
    for t in df["order"]:
        out.append((t, "order reversed"))
    return out


def judged(contracts, prog, c, s, df, cache={}):
    """Evidence that a difference is one of behaviour (judge.py); empty: undecided."""
    if "j" not in cache:
        cache["j"] = judge.Judge(contracts, prog)
    ev = ["assertion lost"] if df["asserts"] and not df["ret"] and not df["lost"] and not df["gained"] else []
    ev += ["two conflicting accesses happen in the opposite order"] if df["order"] and not df["ret"] and not df["lost"] and not df["gained"] else []
    base, cur = summ.normal(summ.load(c)), summ.normal(s.raw)
    flat = lambda n: [n[0], *n[1], *n[2]]
    from collections import Counter
    ev += logic.evidence(base, cur, cache["j"].wraps)
    return ev + cache["j"].evidence(flat(base), flat(cur), Counter(c["shape"]), judge.shape(prog, s.analysed))


def load(path=STORE):
    return json.load(open(path))


if __name__ == "__main__":
    from extract import extract
    from prog import Program
    p = Program(os.environ.get("VERIF_FACTS") or extract())
    if sys.argv[1] == "update":
        store(p)
        import items
        items.store(p)
        import rename
        with open(rename.STORE, "w") as f:
            f.write(json.dumps(p.symbols, separators=(",", ":"), sort_keys=True) + "\n")
    else:
        c = load()
        n = d = 0
        known = {v["key"] for v in c.values()}
        seen = set()
        for k, b in cids(p).items():
            seen.add(k)
            if k not in c or (len(sys.argv) > 2 and sys.argv[2] not in k):
                continue
            n += 1
            ts = summ.load(c[k])
            base = ts
            try:
                s = summarise(p, b, known)
            except Exception as x:
                print("ERR", k, type(x).__name__, x)
                continue
            df = compare(base, s.raw)
            if df:
                d += 1
                print("DIFF", judged(c, p, c[k], s, df), k, "new:", df["newvoc"], "lost:", df["lostvoc"], "ret" if df["ret"] else "", len(df["lost"]), len(df["gained"]), "asserts", len(df["asserts"]), "order", len(df["order"]))
                if len(sys.argv) > 2:
                    for x, y in explain(df):
                        print("   -", str(x)[:600])
                        print("   +", str(y)[:600])
        print(n, "compared", d, "differ; missing:", [k for k in c if k not in seen])
