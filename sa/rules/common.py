"""Rules run for every property over the items (constants, derived impls) of its files."""
import assign, items


def constants(ctx):
    """Every public, trait or table constant has its confirmed value."""
    base = items.load()
    cur = ctx.items
    for k in assign.contracts_of(ctx.prop, base):
        if not k.startswith("const|"):
            continue
        c = cur.get(k)
        if c is None:
            ctx.note(f"{k}: no longer a constant of this name")
            continue
        ctx.ob("constants", k[6:], c["val"] == base[k]["val"], f"value is {' '.join(c['val'])[:300]}, confirmed {' '.join(base[k]['val'])[:300]}", f"{c['file']}:{c['line']}")


def compared_fields(ctx):
    """Equality, order, hash and clone of a type look at the confirmed fields: a derived impl replaced by hand-written code (or the reverse) may not ignore (or start to consider) one."""
    base = items.load()
    cur = ctx.items
    for k in assign.contracts_of(ctx.prop, base):
        if not k.startswith("impl|"):
            continue
        c, b = cur.get(k), base[k]
        if c is None:
            ctx.note(f"{k}: impl no longer exists under this name")
            continue
        if c["derived"] == b["derived"]:
            ctx.ob("compared_fields", k[5:], True)
            continue
        lost = sorted(set(b["reads"]) & set(c["fields"]) - set(c["reads"]))
        new = sorted(set(c["reads"]) & set(b["fields"]) - set(b["reads"]))
        ctx.ob("compared_fields", k[5:], not lost and not new,
               f"{'derived' if c['derived'] else 'hand-written'} now; "
               + (f"does not look at {', '.join(lost)} " if lost else "") + (f"looks at {', '.join(new)}, which it confirmedly ignores" if new else ""), f"{c['file']}:{c['line']}")


def serde_pairs(ctx):
    """Derived writer and reader agree: every field is written, under the names that are read; nothing is skipped or defaulted."""
    sd = items.serde(ctx.prog)
    for t, d in sorted(sd.items()):
        short = t.split("::")[-1]
        files = [x["file"] for x in (d.get("ser"), d.get("de")) if x]
        if not assign.contracts_of(ctx.prop, {"|Serialize|": {"file": files[0]}}):
            continue
        s, r = d.get("ser"), d.get("de")
        key = d["adt"]["crate"].replace("powdr_", "") + "|" + short
        if s:
            w = f"{s['file']}:{s['line']}"
            conv = any(x.startswith("via") for x in s["how"])
            lost = sorted(set(d["fields"]) - s["reads"])
            if not conv:
                ctx.ob("serde_written", key, not lost, f"the derived Serialize impl of {t} never writes {', '.join(lost)}", w)
            ctx.ob("serde_unconditional", key, not s["skips"], f"the derived Serialize impl of {t} leaves out {', '.join(sorted(s['skips']))} on some path", w)
        if r:
            w = f"{r['file']}:{r['line']}"
            ctx.ob("serde_no_default", key, not r["defaults"], f"the derived Deserialize impl of {t} fills a field with a default ({', '.join(sorted(r['defaults']))})", w)
        if s and r and s["names"] and r["names"]:
            a, b = sorted(s["names"] - r["names"]), sorted(r["names"] - s["names"])
            flat = "serialize_map" in s["how"]
            ctx.ob("serde_names", key, not a and (flat or not b), f"written but not read: {a}; read but not written: {b}", w)


RULES = [constants, compared_fields]
SERDE = [serde_pairs]
