"""Second stage of a contract comparison.  Two summaries can differ because the
behaviour changed or because the normal form did not see through a rewrite.
A difference counts as a violation only with positive evidence that something
the function decides, reads, calls or computes is not what was confirmed:

 local     the function is written with the same operations as before, so the
           different summary is a local change of logic (a condition, an
           operand, an order), or exactly one operation was exchanged for its
           counterpart (min/max, any/all, first/last, add/sub ...);
 missing / added   a field, a called function, a constant, a comparison, a
           variant test or an ordering/selecting operation occurs on one side
           only (a helper that was inlined, or is now called instead, stands
           for what it does itself).

Without such evidence the difference is reported as undecided, not as a violation."""
import re
from collections import Counter
from term import *
import term as TM

SOFT_TRAITS = {"Default", "TryInto", "TryFrom", "From", "Into", "Clone", "LowerHex", "UpperHex", "Display", "Debug", "ToString", "Iterator", "IntoIterator", "PartialEq", "PartialOrd",
               "Ord", "AsRef", "Borrow", "ToOwned", "Extend", "FromIterator", "DoubleEndedIterator", "ExactSizeIterator", "Itertools", "Option", "Result", "Vec", "Add", "Sub", "Mul", "Neg", "Not",
               "AddAssign", "SubAssign", "MulAssign", "Deref", "DerefMut", "Index", "IndexMut", "Hash", "Fn", "FnMut", "FnOnce", "Zero", "One", "Step", "Sum", "Product", "BitAnd", "BitOr", "String", "str"}
# operations that select or order: losing or gaining one is a change
HARD_STD = {"min", "max", "sort", "rev", "dedup", "unique", "skip", "take", "clear", "remove", "pop", "truncate", "swap", "windows", "chunks",
            "min_by_key", "max_by_key", "wrapping_add", "wrapping_sub", "wrapping_mul", "overflowing_add", "overflowing_sub", "saturating_sub", "saturating_add", "checked_mul", "checked_add",
            "checked_sub", "leading_zeros", "trailing_zeros", "to_le_bytes", "to_be_bytes", "from_le_bytes", "from_be_bytes", "exactly_one", "BitAnd", "BitOr", "BitXor", "Shl", "Shr", "Div", "Rem",
            "push_front", "pop_front", "pop_back", "push_str", "difference", "intersection", "union", "symmetric_difference"}
SAME = {"sorted": "sort", "sort_by": "sort", "sort_by_key": "sort", "sort_unstable": "sort", "sorted_by": "sort", "sorted_by_key": "sort", "sort_unstable_by_key": "sort", "dedup_by_key": "dedup",
        "unique_by": "unique", "contains_key": "contains", "pop_first": "pop", "subslice": "skip", "iter:next_back": "rev", "next_back": "rev", "pop_last": "rev"}
SOFT_VARIANTS = {"Some", "None", "Ok", "Err", "Occupied", "Vacant", "Continue", "Break", "Less", "Greater", "Equal", "Left", "Right", "Both"}
SWAPS = [("min", "max"), ("any", "all"), ("first", "last"), ("is_some", "is_none"), ("is_ok", "is_err"), ("is_zero", "is_one"), ("add", "sub"), ("push", "push_front"), ("push_back", "push_front"),
         ("pop", "pop_front"), ("pop_front", "pop_back"), ("next", "next_back"), ("find", "rfind"), ("position", "rposition"), ("union", "intersection"), ("intersection", "difference"),
         ("bitand", "bitor"), ("bitor", "bitxor"), ("shl", "shr"), ("lt", "le"), ("gt", "ge"), ("eq", "ne"), ("is_known_zero", "is_known_one"), ("zip", "zip_eq"), ("skip", "take"), ("is_some_and", "is_none_or"),
         ("wrapping_add", "saturating_add"), ("wrapping_sub", "saturating_sub"), ("min_by_key", "max_by_key"), ("all_equal", "all_unique"), ("to_le_bytes", "to_be_bytes"), ("from_le_bytes", "from_be_bytes"),
         ("left", "right"), ("lhs", "rhs"), ("insert", "remove"), ("mul", "add"), ("take_while", "skip_while"), ("unwrap_or", "unwrap_or_default"), ("and", "or"), ("filter", "skip_while"), ("starts_with", "ends_with")]
SWAPS = {frozenset(x) for x in SWAPS}
QUIETCALL = {"clone", "deref", "deref_mut", "iter", "iter_mut", "into_iter", "next", "borrow", "as_ref", "as_mut", "from", "into", "index", "index_mut", "cloned", "copied", "to_vec", "collect", "collect_vec",
             "to_owned", "as_slice", "as_str", "into_boxed_slice", "fmt", "new_v1", "new_const", "none", "new_display", "new_debug", "write_fmt", "branch", "from_residual", "from_output", "call", "call_mut", "call_once",
             "box_new", "exchange_malloc", "new_uninit", "drop", "max_level", "log", "loc", "enabled", "into_vec", "box_assume_init_into_vec_unsafe", "write_box_via_move"}


class Judge:
    def __init__(self, contracts, prog):
        self.ws = {v["key"].split("::")[-1] for v in contracts.values()}
        self.bykey = {}
        for v in contracts.values():
            self.bykey.setdefault(v["key"], []).append(v)
            self.bykey.setdefault("::".join(v["key"].split("::")[-1:]), []).append(v)
        self.contracts = contracts
        self.fmemo = {}

    def wraps(self, f, g):
        """One of two functions is defined by the other."""
        if not getattr(self, "defs", None):
            self.defs = {}
            for v in self.contracts.values():
                names = {n[1].get("v") for n in v["nodes"] if n[0] == "call"}
                self.defs.setdefault(v["key"].split("::")[-1], set()).update(str(n).split("::")[-1] for n in names)
        f, g = f.split("::")[-1], g.split("::")[-1]
        return f == g or g in self.defs.get(f, ()) or f in self.defs.get(g, ())

    # ------------------------------------------------------------ features
    def wscall(self, n):
        n = n.split(":")[-1] if n.startswith("iter:") else n
        h, _, l = n.rpartition("::")
        if h:
            return None if h.split("::")[-1] in SOFT_TRAITS or l in ("new", "default") else l
        return l if l in self.ws and l not in ("new", "get", "insert", "remove", "push", "extend", "next", "from", "into", "default", "contains", "pop", "len", "is_empty", "iter", "fmt", "read", "write", "replace", "add", "set", "build", "range", "sum", "product") else None

    def leaves(self, t, depth=0):
        """What a term is about: the nearest fields, functions, parameters."""
        r = self.fmemo.get(t)
        if r is not None:
            return r
        o, out = t.op, frozenset()
        if depth > 40:
            return out
        if o == "field" and not str(t.a[1]).isdigit():
            out = frozenset(("." + str(t.a[1]),))
        elif o == "call" and self.wscall(t.a[0]):
            out = frozenset((self.wscall(t.a[0]),))
        elif o == "call":
            for y in t.a[1]:
                if isinstance(y, T):
                    out |= self.leaves(y, depth + 1)
        elif o == "const" and isinstance(t.a[0], int) and abs(t.a[0]) > 1:
            out = frozenset(("#" + str(t.a[0]),))
        elif o == "param":
            out = frozenset(("$" + str(t.a[0]),))
        elif o == "cases":
            for _, l in t.a[0]:
                out |= self.leaves(l, depth + 1)
        elif o == "comp":
            out = self.leaves(t.a[1], depth + 1)
        elif o == "b":
            for y in TM.support(t.a[0]):
                out |= self.leaves(y, depth + 1)
        elif o in ("field", "as", "idx", "elem", "len", "collect", "chain", "acc", "such", "eq", "eq0", "ge0", "lt", "is", "op", "agg", "lin", "mul", "cast"):
            def go(x):
                nonlocal out
                if isinstance(x, T):
                    out |= self.leaves(x, depth + 1)
                elif isinstance(x, tuple):
                    for y in x:
                        go(y)
            for x in t.a[:1] if o in ("field", "as", "idx", "such", "is") else t.a:
                go(x)
        self.fmemo[t] = out
        return out

    def features(self, terms):
        f = {"sig": set(), "field": set(), "call": set(), "const": set(), "std": set(), "var": set(), "cmp": {}, "err": set()}
        seen = set()
        for t in terms:
            walk(t, seen)
        for x in seen:
            o = x.op
            if o == "field":
                if not str(x.a[1]).isdigit():
                    f["field"].add(x.a[1])
            elif o in ("call", "eff"):
                n = x.a[0]
                w = self.wscall(n)
                if o == "eff":
                    f["sig"].add(("eff " + n.split("::")[-1],) + tuple(self.leaves(y) for y in x.a[1] if isinstance(y, T)))
                if w:
                    f["call"].add(w)
                    if o == "call":
                        f["sig"].add((w,) + tuple(self.leaves(y) for y in x.a[1] if isinstance(y, T)))
                else:
                    l = n.split("::")[-1].split(":")[-1]
                    if n.startswith("cast:"):
                        f["std"].add(n)
                    l = SAME.get(n, SAME.get(l, l))
                    if l in HARD_STD:
                        f["std"].add(l)
                for y in x.a[1] if isinstance(x.a[1], tuple) else ():
                    if isinstance(y, T) and y.op == "const" and isinstance(y.a[0], int) and w:
                        f["const"].add((w, y.a[0]))
            elif o == "op":
                if x.a[0] in HARD_STD:
                    f["std"].add(x.a[0])
            elif o in ("skip", "take", "rev"):
                f["std"].add(o)
            elif o == "const":
                v = x.a[0]
                if isinstance(v, int) and abs(v) > 1:
                    f["const"].add(abs(v))
            elif o == "lin":
                if abs(x.a[0]) > 1:
                    f["const"].add(abs(x.a[0]))
                for _, k in x.a[1]:
                    if abs(k) > 1:
                        f["const"].add(abs(k))
            elif o in ("ge0", "eq0"):
                c, m = TM.lin_parts(x.a[0])
                if any(y.op == "index" for y in m):
                    continue        # bounds of a loop counter
                ms = sorted((tuple(sorted(self.leaves(y))), k) for y, k in m.items())
                if ms and ms[0][1] < 0 or o == "ge0" and len(ms) == 2 and ms[0][0] == ms[1][0]:
                    ms2 = sorted((y, -k) for y, k in ms)
                    if not (o == "ge0" and len(ms) == 2 and ms[0][0] == ms[1][0]):
                        ms = ms2
                        c = -c if o == "eq0" else -c - 1
                    else:
                        c = min(abs(c), abs(-c - 1))
                key = frozenset(z for y, _ in ms for z in y)
                f["cmp"].setdefault(key, set()).add((o, tuple(ms), c))
            elif o == "lt":
                key = frozenset(self.leaves(x.a[0]) | self.leaves(x.a[1]))
                f["cmp"].setdefault(key, set()).add(("lt", tuple(sorted(self.leaves(x.a[0]))), tuple(sorted(self.leaves(x.a[1])))))
            elif o == "eq":
                key = frozenset(self.leaves(x.a[0]) | self.leaves(x.a[1]))
                f["cmp"].setdefault(key, set()).add(("eq",))
            elif o in ("is", "as"):
                v = str(x.a[1])
                if v in ("Ok", "Err") and x.a[0].op == "call" and self.wscall(x.a[0].a[0]):
                    f["err"].add((self.wscall(x.a[0].a[0]),) + tuple(self.leaves(y) for y in x.a[0].a[1] if isinstance(y, T)))
                if v not in SOFT_VARIANTS:
                    f["var"].add(v)
            elif o == "agg":
                n = str(x.a[0])
                if n not in ("tuple", "array", "Range", "RangeFrom", "RangeTo", "RangeFull", "RangeInclusive", "RangeToInclusive", "closure", "Ordering"):
                    if n in ("Option", "Result"):
                        if x.a[1] in ("Err",):
                            f["var"].add("Err")
                    else:
                        f["var"].add(n + ("::" + str(x.a[1]) if x.a[1] is not None else ""))
        return f

    def callee_features(self, name):
        out = []
        for v in self.bykey.get(name, ())[:4]:
            k = v["key"]
            if ("cf", k) not in self.fmemo:
                import summ
                raw = summ.load(v)
                self.fmemo[("cf", k)] = self.features(list(raw))
            out.append(self.fmemo[("cf", k)])
        return out

    # ------------------------------------------------------------ decision
    def evidence(self, base, cur, shape0, shape1):
        """Reasons to believe that the behaviour changed."""
        ev = shape_evidence(shape0, shape1, lambda n: {y for v in self.bykey.get(n, ()) for y in v.get('shape', ())} if n in self.ws and n not in STD else set(),
                            lambda n: n in self.ws and n not in STD and n not in ARITH and n not in RENAMES)
        if ev:
            return ev
        f0, f1 = self.features(base), self.features(cur)
        ev = []
        lostc, gainc = f0["call"] - f1["call"], f1["call"] - f0["call"]
        # a helper now called / inlined stands for its own features
        more0 = [g for c in lostc for g in self.callee_features(c)]
        more1 = [g for c in gainc for g in self.callee_features(c)]

        def has(fs, kind, v):
            return any(v in g[kind] for g in fs)
        ALT = {"take", "retain", "drain", "insert", "contains_key", "remove", "filter", "clear", "mem_take"}
        d0, d1 = set(shape0 - shape1), set(shape1 - shape0)
        if (d0 | d1) & {"remove"} and (d1 if "remove" in d0 else d0) & ALT:
            # an entry taken out by key, or by rebuilding the container without it
            f0["std"] = f0["std"] - {"remove"}
            f1["std"] = f1["std"] - {"remove"}
        if "unique" in d0 | d1 and d0 | d1 > {"unique"} and "insert" in shape0 | shape1:
            # duplicates are dropped by the set they are put into
            f0["std"] = f0["std"] - {"unique"}
            f1["std"] = f1["std"] - {"unique"}
        for kind in ("field", "const", "std", "var"):
            for v in f0[kind] - f1[kind]:
                if not has(more1, kind, v):
                    ev.append(f"no longer uses {kind} {v}")
            for v in f1[kind] - f0[kind]:
                if not has(more0, kind, v):
                    ev.append(f"now uses {kind} {v}")
        for v in f0["err"] - f1["err"]:
            if v in f1["sig"] and not has(more1, "err", v):
                ev.append(f"no longer looks whether {v[0]} failed")
        for c in lostc:
            if has(more1, "call", c):
                continue
            # inlined: everything the callee does is now done here
            if any(self.covered(g, f1) for g in self.callee_features(c)):
                continue
            ev.append(f"no longer calls {c}")
        for c in gainc:
            if has(more0, "call", c):
                continue
            if any(self.covered(g, f0) for g in self.callee_features(c)):
                continue
            ev.append(f"now calls {c}")
        ls, gs = f0["sig"] - f1["sig"], f1["sig"] - f0["sig"]
        for a, b, txt, more in ((ls, gs, "no longer", more1), (gs, ls, "now", more0)):
            for x in a:
                if x[0].startswith("eff ") and x[0][4:] in ("add", "write", "retain", "or_insert", "or_default", "entry", "sort", "rev", "dedup", "extend", "insert", "again", "apply", "next", "index_mut", "get_mut", "and_modify", "drain"):
                    continue
                if not any(y[0] == x[0] for y in b) and not has(more, "sig", x) and any(y[0] == x[0] for y in f0["sig"] & f1["sig"]):
                    ev.append(f"{txt} calls {x[0]}(" + ", ".join("{" + ",".join(sorted(q)) + "}" for q in x[1:]) + ")")
        lk, gk = set(f0["cmp"]) - set(f1["cmp"]), set(f1["cmp"]) - set(f0["cmp"])
        for k in set(f0["cmp"]) | set(f1["cmp"]):
            if any(k & y for y in (gk if k in lk else lk if k in gk else ())):
                continue        # the same comparison, written over other operands
            a, b = f0["cmp"].get(k, set()), f1["cmp"].get(k, set())
            if a == b:
                continue
            if a and b:
                ca = {x for x in a if x[0] != "eq"}
                cb = {x for x in b if x[0] != "eq"}
                if ca != cb and (ca - cb and cb - ca):
                    ev.append("comparison over {" + ", ".join(sorted(k)) + "} changed")
            elif a and not any(k in g["cmp"] for g in more1) and not any(a & y for y in f1["cmp"].values()):
                if not any(x[0] == "eq" for x in a) or k:
                    ev.append("no longer compares {" + ", ".join(sorted(k)) + "}")
            elif b and not any(k in g["cmp"] for g in more0) and k and not any(b & y for y in f0["cmp"].values()):
                ev.append("now compares {" + ", ".join(sorted(k)) + "}")
        return ev

    def covered(self, g, f):
        """Everything g does shows in f."""
        return all(g[k] <= f[k] for k in ("field", "const", "std", "var", "call")) and (g["field"] or g["call"] or g["const"] or g["cmp"])


# operations that come and go with a change of style
RENAMES = {"collect_vec", "clone", "to_vec", "collect", "into_iter", "iter", "iter_mut", "as_ref", "to_string", "format", "fmt"}
OPS = {"eq": "eq", "ne": "eq", "lt": "lt", "le": "lt", "gt": "lt", "ge": "lt", "add_assign": "add", "sub_assign": "sub", "mul_assign": "mul", "div_assign": "div", "rem_assign": "rem",
       "bitand_assign": "bitand", "bitor_assign": "bitor", "bitxor_assign": "bitxor", "shl_assign": "shl", "shr_assign": "shr", "offset": None}
ARITH = {"add", "sub", "mul", "div", "rem", "bitand", "bitor", "bitxor", "shl", "shr", "neg", "min", "max", "lt", "pow", "abs_diff"}
# adapters that add, count or compare on their own
SUMMING = {"sum", "count", "fold", "enumerate", "len", "position", "product", "reduce", "scan", "try_fold", "counts", "positions", "zip", "rev", "saturating_add", "checked_add", "wrapping_add",
           "min_by_key", "max_by_key", "minmax", "cmp", "contains", "clamp", "get", "split_at", "chunks", "windows", "step_by", "into_group_map", "counts_by", "tuple_windows", "last", "first", "split_last",
           "split_first", "next_back", "iter_mut", "sort", "is_sorted", "skip", "take", "for_each", "retain", "partition", "saturating_sub", "checked_sub", "wrapping_sub"}
# library operations a loop, a test or an option can be written with
STD = {"new", "default", "with_capacity", "is_empty", "len", "reserve", "unwrap", "expect", "get", "not", "for_each", "map", "push", "insert", "extend", "filter", "is_some", "is_none", "any", "all",
       "find", "find_map", "filter_map", "flat_map", "flatten", "contains", "contains_key", "is_some_and", "is_none_or", "map_or", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "ok_or", "ok_or_else",
       "and_then", "then", "then_some", "is_ok", "is_err", "first", "last", "cmp", "partial_cmp", "zip", "zip_eq", "fold", "try_fold", "sum", "count", "chain", "once", "empty", "enumerate", "position",
       "or_insert", "or_insert_with", "or_default", "and_modify", "entry", "get_mut", "cartesian_product", "retain", "drain", "take", "replace", "partition", "unzip", "sorted", "sort", "sorted_by_key",
       "sort_by_key", "sorted_by", "sort_by", "unique", "dedup", "rev", "windows", "exactly_one", "split_first", "split_last", "split_at", "swap", "all_equal", "min_by_key", "max_by_key", "ok", "err", "map_err",
       "or", "or_else", "and", "xor", "xor_assign", "is_zero", "is_one", "take_while", "skip_while", "map_while", "is_some_and", "starts_with", "ends_with", "cloned", "copied", "try_collect", "try_for_each"}


def shape(prog, analysed):
    """Operations the function is written with: every function it calls, with
    its closures and the helpers analysed inside it."""
    c = Counter()
    for i in analysed:
        b = prog.bodies.get(i)
        if b is None:
            continue
        for blk in b.blocks:
            t = blk["t"]
            if t[0] == "call" and "fn" in t[1]:
                n = t[1]["fn"].get("name") or ""
                if n and n not in QUIETCALL and t[1]["fn"].get("def") not in analysed:
                    n = OPS.get(n, n)
                    c[n] += 1
            # comparisons made for a bounds or overflow check are not the program's
            chk = t[1].get("mv") or t[1].get("cp") if t[0] == "assert" and isinstance(t[1], dict) else None
            for s in blk["s"]:
                if isinstance(s[1], list) and s[1] and s[1][0] in ("bin", "cbin"):
                    n = str(s[1][1]).lower()
                    for suf in ("withoverflow", "unchecked"):
                        n = n.removesuffix(suf)
                    n = OPS.get(n, n)
                    if n is None or n in ("eq", "lt") and chk and not s[0]["p"] and chk["l"] == s[0]["l"] and not chk["p"]:
                        continue
                    if n in ("bitor", "bitand", "bitxor", "not") and b.ty(s[0]["t"])["k"] == "bool":
                        continue        # `p |= q` is `if q { p = true }`
                    c[n] += 1
    return c


def shape_evidence(s0, s1, opsof=lambda n: set(), isws=lambda n: False):
    d0, d1 = s0 - s1, s1 - s0
    n0, n1 = sum(d0.values()), sum(d1.values())
    if not n0 and not n1:
        return ["written with the same operations as before: a local change of logic"]
    names = lambda d: ", ".join(sorted(f"`{x}`" for x in d))
    if n0 == n1 and len(d0) == 1 and len(d1) == 1 and frozenset((next(iter(d0)), next(iter(d1)))) in SWAPS:
        return [f"{names(d0)} was exchanged for {names(d1)}"]
    for a, w in ((d0, "lost"), (d1, "gained")):
        if len(a) and n0 + n1 == sum(a.values()) and all(isws(x) and s0[x] and s1[x] for x in a):
            return [f"calls {w}, and nothing else changed: {names(a)}"]
    out = []
    rest = (set(d0) | set(d1)) - ARITH - {"eq"}
    if not rest & SUMMING:
        a0, a1 = set(d0) & ARITH, set(d1) & ARITH
        if not any(x in STD for x in rest):
            a0 |= set(d0) & {"eq"}
            a1 |= set(d1) & {"eq"}
        # done inside a function called instead / done here instead of calling it
        a0 -= {y for x in d1 for y in opsof(x)}
        a1 -= {y for x in d0 for y in opsof(x)}
        # said once in a helper instead of twice, or the reverse
        for a, d, n, s in ((a0, d0, n1, s1), (a1, d1, n0, s0)):
            if len(a) < len(d) and all(x in s for x in a) and any(x in s and x not in STD and x not in ARITH and x not in SUMMING and x not in RENAMES for x in d):
                a.clear()
        if a0 | a1 <= {"min", "max", "lt"} and a0 and a1:
            a0 = a1 = set()     # min(a, b) written as a comparison, or the reverse
        if a0:
            out.append(f"arithmetic or comparison lost: {names(a0)}")
        if a1:
            out.append(f"arithmetic or comparison gained: {names(a1)}")
    return out
