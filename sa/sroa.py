"""Scalar replacement of aggregates.  A local struct or tuple that is built
field by field, updated field by field and only used as a whole at the end is
the same as one variable per field."""


def places(x, f):
    if isinstance(x, dict):
        if "l" in x and "p" in x and "t" in x and not isinstance(x["p"], str):
            f(x)
            return
        for v in x.values():
            places(v, f)
    elif isinstance(x, list):
        for y in x:
            places(y, f)


def optype(o):
    for k in ("mv", "cp", "c"):
        if k in o:
            return o[k].get("t")
    return None


def split(b):
    n = b.nargs
    cand = {}       # local -> (kind, names, types)
    bad = set()
    mut = set()
    for bl in b.blocks:
        for p, r, _ in bl["s"]:
            if not isinstance(r, list):
                continue
            if not p["p"] and r[0] == "agg" and r[1][0] in ("adt", "tuple") and p["l"] > n and len(r[2]) > 1 and not (
                    r[1][0] == "adt" and r[1][2] != r[1][1].split("::")[-1]):
                names = r[1][3] if r[1][0] == "adt" else [str(i) for i in range(len(r[2]))]
                ts = [optype(o) for o in r[2]]
                if len(names) != len(ts) or None in ts or p["l"] in cand and cand[p["l"]][1] != names:
                    bad.add(p["l"])
                cand[p["l"]] = (r[1], names, ts)
    if not cand:
        return
    # every mention must be by field, a construction, or a use of the whole
    for bl in b.blocks:
        for p, r, _ in bl["s"]:
            l = p["l"]
            if l in cand:
                if p["p"]:
                    if p["p"][0][0] != "." or p["p"][0][1] not in cand[l][1]:
                        bad.add(l)
                    else:
                        mut.add(l)
                elif not (isinstance(r, list) and r[0] == "agg" and r[1] == cand[l][0]):
                    bad.add(l)
            if not isinstance(r, list):
                continue

            def chk(q, whole=r[0] in ("use", "agg"), dest=p):
                if q["l"] in cand:
                    if q["p"]:
                        if q["p"][0][0] != "." or q["p"][0][1] not in cand[q["l"]][1]:
                            bad.add(q["l"])
                        if r[0] == "ref" and r[1] == "mut":
                            mut.add(q["l"])
                        if r[0] == "agg" and dest["l"] == q["l"] and not dest["p"]:
                            bad.add(q["l"])
                    elif not whole or dest["l"] == q["l"]:
                        bad.add(q["l"])
                for e in q["p"]:
                    if e[0] == "[]" and e[1] in cand:
                        bad.add(e[1])
            places(r, chk)
        t = bl["t"]
        if t[0] == "drop":
            if t[1]["l"] in cand and t[1]["p"] and t[1]["p"][0][0] != ".":
                bad.add(t[1]["l"])
            continue
        if t[0] == "call":
            if t[3] and t[3]["l"] in cand:
                if not t[3]["p"] or t[3]["p"][0][0] != ".":
                    bad.add(t[3]["l"])
                else:
                    mut.add(t[3]["l"])
            for a in t[2]:
                def chk2(q):
                    if q["l"] in cand and q["p"] and q["p"][0][0] != ".":
                        bad.add(q["l"])
                places(a, chk2)
            places(t[1], lambda q: bad.add(q["l"]))
        else:
            def chk3(q):
                if q["l"] in cand and (not q["p"] or q["p"][0][0] != "."):
                    bad.add(q["l"])
            places(t, chk3)
    todo = {l for l in cand if l in mut and l not in bad}
    if not todo:
        return
    new = {}
    for l in sorted(todo):
        for f, t in zip(cand[l][1], cand[l][2]):
            new[l, f] = len(b.locals)
            nm = [b.locals[l][1] + "." + f] if len(b.locals[l]) > 1 else []
            b.locals.append([t] + nm)

    def sub(x, pre):
        if isinstance(x, dict):
            if "l" in x and "p" in x and "t" in x and not isinstance(x["p"], str):
                if x["l"] in todo and x["p"]:
                    return dict(x, l=new[x["l"], x["p"][0][1]], p=x["p"][1:])
                return x
            for k in ("mv", "cp"):
                q = x.get(k)
                if q and q["l"] in todo and not q["p"]:
                    kind, names, ts = cand[q["l"]]
                    tmp = len(b.locals)
                    b.locals.append([q["t"]])
                    pl = {"l": tmp, "p": [], "t": q["t"]}
                    pre.append([pl, ["agg", kind, [{k: {"l": new[q["l"], f], "p": [], "t": t}} for f, t in zip(names, ts)]], 0])
                    return {k: pl}
            return {k: sub(v, pre) for k, v in x.items()}
        if isinstance(x, list):
            return [sub(y, pre) for y in x]
        return x
    for bl in b.blocks:
        ss = []
        for p, r, ln in bl["s"]:
            if p["l"] in todo and not p["p"]:
                kind, names, ts = cand[p["l"]]
                pre = []
                ops = [sub(o, pre) for o in r[2]]
                ss += pre
                for f, t, o in zip(names, ts, ops):
                    ss.append([{"l": new[p["l"], f], "p": [], "t": t}, ["use", o], ln])
                continue
            pre = []
            r2 = sub(r, pre)
            for q in pre:
                q[2] = ln
            ss += pre
            ss.append([sub(p, []), r2, ln])
        pre = []
        t = bl["t"]
        if t[0] == "drop" and t[1]["l"] in todo and not t[1]["p"]:
            t = ["goto", t[2]]
        else:
            t = sub(t, pre)
            ss += pre
        bl["s"], bl["t"] = ss, t
