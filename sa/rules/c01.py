"""C01: no output depends on hash order, thread schedule, clock or addresses."""
import re
from collections import Counter
import hashorder as H
from prog import last

# Order-sensitive uses confirmed harmless by reading: (file, element) -> (how many, reason).
# The behaviour contracts of the functions that hold them are part of this property.
CONFIRMED = {
    "autoprecompiles/src/equivalence_classes.rs map<(usize, usize), Vec<T>>": (1, "class ids are internal; partitions compare as sets of classes"),
    "autoprecompiles/src/equivalence_classes.rs map<T, usize>": (1, "to_classes: order documented as irrelevant; the constraint generator sorts"),
    "constraint-solver/src/reachability.rs set<V>": (1, "worklist of a set-valued closure"),
    "constraint-solver/src/rule_based_optimizer/driver.rs map<Expr, RangeConstraint<T>>": (1, "facts of a datalog program: a set"),
    "constraint-solver/src/rule_based_optimizer/driver.rs map<Var, RangeConstraint<T>>": (1, "facts of a datalog program: a set"),
    "constraint-solver/src/solver/boolean_extractor.rs map<GroupedExpression<T, V>, Option<V>>": (1, "collected back into a map whose values are never read"),
    "constraint-solver/src/system_splitter.rs set<V>": (1, "component members are removed from a sorted set; the component's items come from the indexed system in item order"),
    "constraint-solver/src/indexed_constraint_system.rs map<V, BTreeSet<ConstraintSystemItem>>": (1, "each entry is remapped independently of the others"),
}
# keyed sorts whose key is not the map key
KEYS = {
    ("constraint-solver/src/solver/constraint_splitter.rs", ("coeff", "to_integer()")): "components are grouped by coeff, so it is unique",
    ("autoprecompiles/src/execution_profile.rs", ("1",)): "trace log only",
}
SERIALIZED = {"Partition.class_of", "OptimisticConstraints.fetches_by_step", "OptimisticConstraints.constraints_to_check_by_step"}
PARALLEL = {("reduce", "autoprecompiles/src/blocks/mod.rs"): "merge of count maps: commutative and associative",
            ("parallel_intersect", "autoprecompiles/src/equivalence_classes.rs"): "recursion on the same parallel iterator; intersection is commutative"}


def hash_order(ctx):
    """Every use of a hash-ordered iterator is order-insensitive, totally sorted, or a confirmed exception."""
    sites = H.scan(ctx.prog)
    ctx.count("hash_iteration_sites", len(sites))
    ctx.need("hash_order", "hash iteration sites", len(sites) >= 10)
    used = Counter()
    for s in sites:
        where = f"{s.b.file}:{s.b.line} {s.b.key}"
        inst = f"{s.key} {s.what[:60]}"
        if s.cls == "ok":
            ctx.ob("hash_order", inst, True)
        elif s.cls == "esc":
            ctx.ob("hash_order", f"{s.key} leaves {s.b.key}; its callers are analysed", True)
        elif s.cls == "key":
            f = H.key_fields(ctx.prog, s.b, s.what)
            ok = f <= {"0"} and f or (s.b.file, tuple(sorted(f))) in KEYS
            ctx.ob("hash_order", f"{s.key} {s.what}", ok, f"hash-ordered elements are sorted by a key that need not be unique ({sorted(f)}): ties keep the hash order", where)
        else:
            used[s.key] += 1
            c = CONFIRMED.get(s.key)
            ok = c is not None and used[s.key] <= c[0]
            ctx.ob("hash_order", inst, ok, f"iteration order of {s.elem} becomes observable: {s.what}", where)


def serialized_order(ctx):
    """No serialised type holds a hash table outside the confirmed ones."""
    P = ctx.prog
    ser = set()
    for i in P.impls:
        if i.get("trait") and last(i["trait"]) == "Serialize" and i.get("self") is not None:
            a = P.types[i["crate"]][i["self"]].get("adt")
            if a:
                ser.add(a)
    ctx.need("serialized_order", "Serialize impls", len(ser) > 5)
    for a in P.adts.values():
        if a["id"] not in ser:
            continue
        for v in a["variants"]:
            for f in v["fields"]:
                s = P.types[a["crate"]][f[1]]["s"]
                n = last(a["id"]) + "." + str(f[0])
                ok = not re.search(r"hash::(map::HashMap|set::HashSet)<", s) or n in SERIALIZED
                ctx.ob("serialized_order", n, ok, f"a serialised field iterates a hash table: {s[:120]}", f"{a['file']}:{a['line']}")


def flows_to_branch(b, start):
    """Locals tainted by start, and the first switch/return/store they reach."""
    taint = {start}
    ch = True
    while ch:
        ch = False
        for bb in b.blocks:
            for st in bb["s"]:
                if isinstance(st, list) and len(st) > 1 and isinstance(st[0], dict) and isinstance(st[1], list):
                    if st[0]["l"] not in taint and any(f"'l': {x}," in repr(st[1]) for x in taint):
                        taint.add(st[0]["l"])
                        ch = True
            t = bb["t"]
            if t[0] == "call" and "fn" in t[1] and t[3]["l"] not in taint:
                if re.search(r"fmt::|tracing|log::|format", t[1]["fn"]["p"]):
                    continue
                if any((a.get("mv") or a.get("cp") or {}).get("l") in taint for a in t[2]):
                    taint.add(t[3]["l"])
                    ch = True
    for bb in b.blocks:
        t = bb["t"]
        if t[0] == "switch":
            pl = t[1].get("mv") or t[1].get("cp") if isinstance(t[1], dict) else None
            if pl and pl["l"] in taint:
                return "a branch condition"
    if 0 in taint:
        return "the result"
    return None


def schedule_clock(ctx):
    """Parallel reductions are order-preserving or commutative; time and randomness reach no decision."""
    ex = H.externals(ctx.prog)
    ctx.count("parallel_clock_sites", len(ex))
    for b, kind, name, info in ex:
        where = f"{b.file}:{b.line} {b.key}"
        if kind == "parallel":
            ok = (name in ("collect", "collect_into_vec", "unzip") and "Mutex" not in info and re.match(r"\(?Vec|HashSet|HashMap|BTree|Result<Vec|Option<Vec", info)) \
                or name in ("sum", "count", "max", "min", "any", "all") or (name, b.file) in PARALLEL
            ctx.ob("schedule", f"{b.file} {name} -> {info}", ok, f"parallel terminal `{name}` depends on the thread schedule", where)
        elif kind == "clock":
            if b.self_adt == "StatsLogger":
                ctx.ob("clock", f"{b.file} {name}", True)
                continue
            bad = None
            for i, t in H.calls(b):
                if t[1]["fn"]["name"] in ("now", "elapsed", "duration_since"):
                    bad = bad or flows_to_branch(b, t[3]["l"])
            ctx.ob("clock", f"{b.file} {name}", not bad, f"a clock reading reaches {bad}", where)
        else:
            ctx.ob("clock", f"{b.file} {kind} {name}", False, f"{kind} source {info}", where)
    # shared mutable state inside parallel closures
    for b in ctx.prog.bodies.values():
        if b.promoted or b.kind != "Closure":
            continue
        for i, t in H.calls(b):
            f = t[1]["fn"]
            if f["name"] in ("lock", "fetch_add", "fetch_sub", "swap", "compare_exchange") and re.search(r"sync::(poison::)?(mutex|Mutex|rwlock|atomic)|atomic", f["p"]):
                ctx.ob("schedule", f"{b.file} {f['name']} in closure of {b.key}", "execution_profile.rs" in b.file, "a closure updates shared state: the order of updates depends on the schedule", f"{b.file}:{b.line}")


RULES = [hash_order, serialized_order, schedule_clock]
