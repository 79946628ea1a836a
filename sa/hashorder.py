"""Whole-program hash-order dataflow.

Sources: values whose type contains an iterator over a randomly seeded hash
table (std or itertools group maps), parallel iterators, clock readings,
pointer-address casts.  Every call consuming such a value is classified:

  adapter      the result still contains the source iterator: followed by type
  insensitive  the result does not depend on the order (fold into a set/map,
               total sort, commutative reduction, boolean quantifier)
  sensitive    anything else
"""
import re
from prog import last

ITER = re.compile(r"(?:hash_map|hash_set|hash::map|hash::set)::(Iter|IterMut|IntoIter|Keys|IntoKeys|Values|ValuesMut|IntoValues|Drain|ExtractIf|Union|Intersection|Difference|SymmetricDifference)\b")
# an adapter that iterates a hash collection it receives from a closure
NEST = re.compile(r"(?:flatten::(?:FlatMap|Flatten|FlattenCompat))<")
HASH = re.compile(r"hash::(?:map::HashMap|set::HashSet)<")
ORDERED_FREE = re.compile(r"^(?:&mut |&)?(?:std::collections::hash::(?:map::HashMap|set::HashSet)|alloc::collections::btree::(?:map::BTreeMap|set::BTreeSet)|bool$|usize$|u\d+$|\(\)$)")
COMMUT = {"any", "all", "count", "sum", "product", "min", "max", "len", "is_empty", "contains", "counts", "sorted", "sorted_unstable",
          "all_unique", "all_equal", "size_hint", "into_group_map", "into_grouping_map"}
SORTS = {"sort", "sort_unstable", "sort_by_key", "sort_by", "sort_unstable_by_key", "sort_unstable_by", "sort_by_cached_key"}


def argty(b, a):
    pl = a.get("mv") or a.get("cp")
    return b.tys(pl["t"]) if pl else ""


def calls(b):
    for i, bb in enumerate(b.blocks):
        t = bb["t"]
        if t[0] == "call" and "fn" in t[1]:
            yield i, t


def short(s):
    """Type text without paths, lifetimes and closure positions."""
    s = re.sub(r"\{closure[^{}]*\}", "closure", s)
    s = re.sub(r"'\w+ ?|'_", "", s)
    s = re.sub(r"(?:\w+::)+", "", s)
    s = re.sub(r"<, ", "<", s)
    return s


def element(ty):
    """The source iterator types inside ty, paths removed."""
    out = []
    for m in re.finditer(r"(?:hash_map|hash_set|hash::map|hash::set)::(\w+)<", ty):
        i, d = m.end(), 1
        while i < len(ty) and d:
            d += {"<": 1, ">": -1}.get(ty[i], 0) if not (ty[i] == ">" and ty[i - 1] == "-") else 0
            i += 1
        nm = m.group(1)
        kind = "set" if "set" in m.group(0) else "map"
        if not ITER.search(m.group(0)[:-1]) and not HASH.search(m.group(0)):
            continue
        inner = short(ty[m.end():i - 1]).strip()
        inner = re.sub(r"^, ", "", inner)
        inner = re.sub(r", RandomState$", "", inner)
        inner = inner.replace("&", "").strip()
        out.append(f"{kind}<{inner}>")
    return out


def is_src(ty):
    if ITER.search(ty):
        return True
    if NEST.search(ty) and HASH.search(ty):
        return True
    return False


def generated(b):
    return "run_with_hasher" in b.key or "__Visitor" in (b.self_adt or "")


class Site:
    def __init__(self, b, elem, cls, what):
        self.b, self.elem, self.cls, self.what = b, elem, cls, what

    @property
    def key(self):
        return f"{self.b.file} {self.elem}"


def local_uses(b, loc):
    n = []
    for i, t in calls(b):
        for a in t[2]:
            pl = a.get("mv") or a.get("cp")
            if pl and pl["l"] == loc and not pl["p"]:
                n.append((i, t))
    return n


def refs_of(b, loc):
    """Locals that (transitively, within the body) borrow or move loc."""
    seen, work = {loc}, [loc]
    while work:
        x = work.pop()
        for bb in b.blocks:
            for st in bb["s"]:
                if not isinstance(st, list) or len(st) < 2 or not isinstance(st[0], dict):
                    continue
                rv = st[1]
                js = repr(rv)
                if f"'l': {x}," in js and not st[0]["p"] and st[0]["l"] not in seen:
                    seen.add(st[0]["l"])
                    work.append(st[0]["l"])
            t = bb["t"]
            if t[0] == "call" and "fn" in t[1] and t[1]["fn"]["name"] in ("deref", "deref_mut", "as_mut_slice", "borrow_mut"):
                for a in t[2]:
                    pl = a.get("mv") or a.get("cp")
                    if pl and pl["l"] == x and t[3]["l"] not in seen:
                        seen.add(t[3]["l"])
                        work.append(t[3]["l"])
    return seen


def sorted_later(b, loc):
    """The collected vector is sorted in place in the same body."""
    rs = refs_of(b, loc)
    for i, t in calls(b):
        if t[1]["fn"]["name"] in SORTS:
            for a in t[2][:1]:
                pl = a.get("mv") or a.get("cp")
                if pl and pl["l"] in rs:
                    return t[1]["fn"]["name"]
    return None


def succs(t):
    k = t[0]
    out = []

    def walk(x):
        if isinstance(x, int):
            out.append(x)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    if k == "goto":
        walk(t[1])
    elif k == "switch":
        for y in t[2:]:
            if isinstance(y, list):
                for z in y:
                    if isinstance(z, list):
                        walk(z[-1])
                    else:
                        walk(z)
            else:
                walk(y)
    elif k == "call":
        walk(t[4])
    elif k in ("drop", "assert"):
        walk(t[2:])
    return out


def loop_of(b, head):
    """Blocks from which `head` is reachable again and that are reachable from it."""
    fwd, st = set(), [head]
    n = len(b.blocks)
    g = {i: [s for s in succs(b.blocks[i]["t"]) if isinstance(s, int) and 0 <= s < n] for i in range(n)}
    while st:
        x = st.pop()
        for y in g[x]:
            if y not in fwd:
                fwd.add(y)
                st.append(y)
    if head not in fwd:
        return set()
    rev = {}
    for x in g:
        for y in g[x]:
            rev.setdefault(y, []).append(x)
    back, st = {head}, [head]
    while st:
        x = st.pop()
        for y in rev.get(x, ()):
            if y not in back:
                back.add(y)
                st.append(y)
    return (fwd & back) | {head}


SET_INSERT = {"insert", "remove", "entry", "retain", "or_default", "or_insert", "or_insert_with", "get_mut", "get", "contains", "contains_key", "or_insert_with_key", "and_modify", "get_or_insert_with"}


def loop_effects(b, head):
    """Order-sensitive things a loop over a hash iterator does."""
    L = loop_of(b, head)
    out = []
    if not L:
        return ["takes one element"]
    n = len(b.blocks)
    for i in sorted(L):
        t = b.blocks[i]["t"]
        if t[0] == "call" and "fn" in t[1] and i != head:
            f = t[1]["fn"]
            for a in t[2]:
                pl = a.get("mv") or a.get("cp")
                if not pl:
                    continue
                ty = b.tys(pl["t"])
                if not ty.startswith("&mut "):
                    continue
                if f["name"] in ("next", "next_back"):
                    continue
                if re.search(r"^&mut (std::collections::hash|alloc::collections::btree)", ty) and f["name"] in SET_INSERT:
                    continue
                if f["name"] in ("extend",) and re.search(r"^&mut (std::collections::hash::|alloc::collections::btree::)", ty):
                    continue
                if f["name"] in ("deref_mut", "index_mut", "as_mut", "iter_mut", "into_iter", "borrow_mut"):
                    continue
                out.append(f"{f['name']}({short(ty)[:60]})")
    return sorted(set(out))


ADAPT = {"map", "filter", "cloned", "copied", "filter_map", "flat_map", "into_iter", "chain", "by_ref", "inspect", "rev", "flatten", "unique", "map_into", "fuse", "into_values", "into_keys"}
MOVES = {"mv", "cp"}


def scan(prog):
    """Classified sites; functions returning a hash iterator taint their callers."""
    esc = {}
    while True:
        sites = []
        for b in prog.bodies.values():
            if not b.promoted and not generated(b):
                sites += scan_body(prog, b, esc)
        new = {s.b.id: s.elem for s in sites if s.cls == "esc"}
        if set(new) <= set(esc):
            return sites
        esc.update(new)


def scan_body(prog, b, esc):
        sites = []
        produced = {}
        hidden = {}       # locals holding a hash iterator behind an opaque type
        for _ in range(3):
            for bb in b.blocks:
                for st in bb["s"]:
                    if isinstance(st, list) and len(st) > 1 and isinstance(st[0], dict) and not st[0]["p"] and isinstance(st[1], list):
                        for l, e in list(hidden.items()):
                            if f"'l': {l}," in repr(st[1]):
                                hidden.setdefault(st[0]["l"], e)
            for i, t in calls(b):
                f = t[1]["fn"]
                d = f.get("res") or f["def"]
                if d in esc or f["def"] in esc:
                    if not is_src(b.tys(t[3]["t"])):
                        hidden[t[3]["l"]] = esc.get(d) or esc.get(f["def"])
                elif f["name"] in ADAPT:
                    for a in t[2]:
                        pl = a.get("mv") or a.get("cp")
                        if pl and pl["l"] in hidden:
                            hidden.setdefault(t[3]["l"], hidden[pl["l"]])
        for i, t in calls(b):
            f = t[1]["fn"]
            ats = [argty(b, a) for a in t[2]]
            rt = b.tys(t[3]["t"])
            src = [x for x in ats if is_src(x)]
            name = f["name"]
            if name in ("deref", "drop", "clone", "fmt", "drop_in_place", "eq", "ne", "cmp", "partial_cmp"):
                continue
            hid = None
            for a in t[2]:
                pl = a.get("mv") or a.get("cp")
                if pl and pl["l"] in hidden:
                    hid = hidden[pl["l"]]
            if not src and hid is not None:
                if name in ADAPT and t[3]["l"] in hidden:
                    continue
                src = [None]
            byval = [x for x in ats[1:] if HASH.match(x.replace("std::collections::", "")) or re.match(r"&?std::collections::hash::(map::HashMap|set::HashSet)<", x)]
            if not src:
                # a whole collection consumed as an iterator
                if byval and name in ("extend", "chain", "zip", "zip_eq", "eq", "from_iter", "collect", "flat_map", "interleave", "cartesian_product"):
                    if name == "extend" and re.match(r"&mut (std::collections::hash|alloc::collections::btree)", ats[0]):
                        sites.append(Site(b, "+".join(element(byval[0])), "ok", name))
                    elif is_src(rt):
                        produced[t[3]["l"]] = rt
                    else:
                        sites.append(Site(b, "+".join(element(byval[0])), "bad", f"{name} consumes a hash collection in its order"))
                elif ats and re.match(r"std::collections::hash::(map::HashMap|set::HashSet)<", ats[0]) and name in ("from_iter", "collect_vec", "sorted_by_key") :
                    sites.append(Site(b, "+".join(element(ats[0])), "bad", f"{name} consumes a hash collection in its order"))
                if is_src(rt):
                    produced[t[3]["l"]] = rt
                continue
            el = "+".join(element(src[0])) if src[0] is not None else hid
            if is_src(rt) and name not in ("next", "collect", "sorted_by_key"):
                # adapter (into_iter, map, filter, ...)
                if name in ("enumerate", "scan", "take", "skip", "zip", "zip_eq", "chunks", "tuple_windows", "take_while", "skip_while", "map_while", "step_by", "peekable", "dedup", "coalesce", "unique_by", "interleave", "tuples", "batching"):
                    sites.append(Site(b, el, "bad", f"{name} depends on the position in a hash order"))
                else:
                    produced[t[3]["l"]] = rt
                continue
            if name in ("next", "next_back", "nth", "last", "find", "find_map", "position", "fold", "try_fold", "for_each", "try_for_each", "reduce", "min_by_key", "max_by_key", "min_by", "max_by",
                        "sorted_by_key", "sorted_by", "sorted_by_cached_key", "exactly_one", "at_most_one", "join", "format", "partition", "try_collect", "collect_tuple"):
                if name == "next" and ats[0].startswith("&mut"):
                    eff = loop_effects(b, i)
                    sites.append(Site(b, el, "bad" if eff else "ok", "loop over a hash iterator: " + ("; ".join(eff) if eff else "only set/map updates")))
                elif name in ("sorted_by_key", "sorted_by", "sorted_by_cached_key"):
                    sites.append(Site(b, el, "key", name))
                elif name == "partition" and re.search(r"^\(std::collections::hash", rt):
                    sites.append(Site(b, el, "ok", name))
                elif name == "for_each":
                    sites.append(Site(b, el, "each", name))
                else:
                    sites.append(Site(b, el, "bad", f"{name} on a hash iterator"))
                continue
            if name in COMMUT:
                sites.append(Site(b, el, "ok", name))
                continue
            if name in ("collect", "from_iter", "collect_vec", "extend", "into_iter_sorted", "unzip"):
                tgt = rt if name != "extend" else ats[0]
                if re.match(r"(&mut )?(std::collections::hash|alloc::collections::btree)", tgt):
                    sites.append(Site(b, el, "ok", name + " into " + short(tgt)[:40]))
                    continue
                s = sorted_later(b, t[3]["l"]) if name in ("collect", "collect_vec") else None
                if s in ("sort", "sort_unstable"):
                    sites.append(Site(b, el, "ok", f"{name} then {s}"))
                elif s:
                    sites.append(Site(b, el, "key", f"{name} then {s}"))
                else:
                    sites.append(Site(b, el, "bad", f"{name} into {short(tgt)[:60]} keeps the hash order"))
                continue
            sites.append(Site(b, el, "bad", f"passed to {name}"))
        # iterators that leave the body unconsumed (returned, boxed, stored)
        for loc, rt in produced.items():
            used = local_uses(b, loc)
            if used:
                continue
            rs = refs_of(b, loc) - {loc}
            if any(local_uses(b, r) for r in rs):
                # moved on to a call: boxed conversions change the type
                if all(any(is_src(argty(b, a)) for a in t[2]) for r in rs for _, t in local_uses(b, r)):
                    continue
                sites.append(Site(b, "+".join(element(rt)), "bad", "hash iterator converted to a type that hides it"))
                continue
            sites.append(Site(b, "+".join(element(rt)), "esc", "hash iterator leaves the function"))
        if 0 in hidden:
            sites.append(Site(b, hidden[0], "esc", "hash iterator leaves the function"))
        return sites


def key_fields(prog, b, what):
    """Fields and calls the sort key closure of a keyed sort in b reads."""
    fields = set()
    for i, t in calls(b):
        nm = t[1]["fn"]["name"]
        if not (nm in SORTS or nm.startswith("sorted_by")) or not what.endswith(nm):
            continue
        for a in t[2][1:]:
            ty = None
            pl = a.get("mv") or a.get("cp")
            if pl:
                ty = b.ty(pl["t"])
            elif "c" in a or "k" in a:
                ty = None
            cid = (ty or {}).get("def") or (ty or {}).get("closure")
            cb = prog.bodies.get(cid) if cid else None
            if cb is None:
                for c in prog.closures.get(b.id, ()):
                    if ty and str(c.line) in ty.get("s", ""):
                        cb = c
            if cb is None:
                fields.add("?")
                continue
            for bb in cb.blocks:
                js = repr(bb)
                fields |= {m for m in re.findall(r"\['\.', '(\w+)', '", js)} | {m for m in re.findall(r"\['\.', (\d+)", js)} | {m for m in re.findall(r"\['\.', '(\w+)'\]", js)}
                t2 = bb["t"]
                if t2[0] == "call" and "fn" in t2[1]:
                    n2 = t2[1]["fn"]["name"]
                    if n2 not in ("cmp", "clone", "deref", "into", "from", "partial_cmp", "unwrap", "to_owned", "borrow", "as_ref"):
                        fields.add(n2 + "()")
    return fields


def externals(prog):
    """Parallel reductions, clock readings and address casts."""
    out = []
    for b in prog.bodies.values():
        if b.promoted or generated(b):
            continue
        for i, t in calls(b):
            f = t[1]["fn"]
            p, name = f["p"], f["name"]
            ats = [argty(b, a) for a in t[2]]
            rt = b.tys(t[3]["t"])
            if any("rayon::" in x for x in ats) and "rayon::" not in rt:
                out.append((b, "parallel", name, short(rt)[:50]))
            elif name in ("now", "elapsed", "duration_since") and ("Instant" in p or "SystemTime" in p):
                out.append((b, "clock", name, ""))
            elif "rand::" in p or "RandomState" in p or "DefaultHasher" in p or "getrandom" in p or name == "build_hasher":
                out.append((b, "random", name, p))
            elif re.search(r"thread::(spawn|scope|current)|mpsc|num_threads|available_parallelism|current_thread_index", p):
                out.append((b, "thread", name, p))
        for bb in b.blocks:
            for st in bb["s"]:
                if isinstance(st, list) and len(st) > 1 and isinstance(st[1], list) and st[1] and st[1][0] == "cast" and "Expose" in repr(st[1]):
                    out.append((b, "address", "cast", ""))
    return out


if __name__ == "__main__":
    import extract
    from prog import Program
    P = Program(extract.extract())
    for s in sorted(scan(P), key=lambda s: (s.cls, s.key)):
        print(s.cls, s.key, "|", s.b.key, "|", s.what, key_fields(P, s.b, s.what) if s.cls == "key" else "")
    for e in externals(P):
        print(e)
