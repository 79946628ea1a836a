"""Transfer functions of the standard-library (and itertools/rayon) vocabulary."""
from term import *
from prog import last
import ev as E

OPT = VARIANTS["Option"]
RES = VARIANTS["Result"]


def Some(x):
    return mk("agg", "Option", "Some", (x,), ("0",))


NONE = mk("agg", "Option", "None", (), ())


def Ok(x):
    return mk("agg", "Result", "Ok", (x,), ("0",))


def Err(x):
    return mk("agg", "Result", "Err", (x,), ("0",))


UNIT = mk("agg", "tuple", "tuple", ())
ITER_TRAITS = {"Iterator", "Itertools", "DoubleEndedIterator", "ExactSizeIterator", "IntoIterator", "ParallelIterator",
               "IndexedParallelIterator", "IntoParallelIterator", "IntoParallelRefIterator", "FromIterator", "Extend",
               "ParallelBridge", "FromParallelIterator"}
BINTRAIT = {"Add": "Add", "Sub": "Sub", "Mul": "Mul", "Div": "Div", "Rem": "Rem", "BitAnd": "BitAnd", "BitOr": "BitOr",
            "BitXor": "BitXor", "Shl": "Shl", "Shr": "Shr"}


def tykind(b, dest):
    return b.ty(dest["t"]) if dest is not None else None


def adt_of(b, ty):
    while ty and ty["k"] == "ref":
        ty = b.ty(ty["args"][0])
    if ty and ty["k"] == "adt":
        return last(ty["adt"])
    return ty["s"] if ty else "?"


INTS = {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f64", "f32", "BigUint", "BigInt", "UBig", "IBig", "Ratio"}


def ordered_ring(b, f):
    """Comparison of a type whose order respects addition (so that `a + k < b + k` is
    `a < b`); that of field elements does not."""
    t = f.get("targs")
    return bool(t) and adt_of(b, b.ty(t[0])) in INTS


def known(ev, b, st, g, f, name, cn, args, dest, line, x):
    d = f["def"]
    trait = last(f["trait"]) if f.get("trait") else None
    R = lambda t: (t, st)
    D = lambda t: ev.deep(t, st)
    rv = lambda i: ev.resolve(args[i], st)

    # -------- calling closures
    if trait in ("Fn", "FnMut", "FnOnce") and name.startswith("call"):
        fv = args[0]
        if fv.op == "mref":
            fv = ev.read(st, fv.a[0], fv.a[1])
        a = args[1]
        aa = list(a.a[2]) if a.op == "agg" else [a]
        if fv.op in ("closure", "fnval"):
            return ev.apply(b, st, fv, aa, g)
        res = mk("call", "apply", (D(fv),) + tuple(D(q) for q in aa), None)
        if ev.recording:
            ev.events.append(E.Event(kind="call", gate=g, gens=ev.gens, name="apply", args=res.a[1], roots=(None,) * len(res.a[1]),
                                     res=res, fn=b.key, line=(b.file, line), site=ev.newsite(), block=x, stack=tuple(ev.stack)))
        if dest is not None and b.ty(dest["t"])["k"] == "bool":
            res = B(var(res))
        return R(res)

    # -------- operators
    if trait in BINTRAIT and len(args) == 2:
        return R(ev.binop(BINTRAIT[trait], D(args[0]), D(args[1]), False))
    if trait and trait.endswith("Assign") and trait[:-6] in BINTRAIT and len(args) == 2:
        op = BINTRAIT[trait[:-6]]
        if args[0].op == "mref":
            root, path = args[0].a
            cur = ev.read(st, root, path)
            if cur.op == "mref":
                root, path = cur.a
                cur = ev.read(st, root, path)
            v = ev.binop(op, cur, D(args[1]), False)
            s2 = dict(st)
            if ev.recording:
                ev.events.append(E.Event(kind="write" if root[0] == "P" else "lwrite", gate=g, gens=ev.gens, name="=", args=(cur, v),
                                         roots=((root, path), None), fn=b.key, line=(b.file, line), site=ev.newsite(), block=x,
                                         stack=tuple(ev.stack), extra=cur))
            ev.write(s2, root, path, v)
            return UNIT, s2
        return None
    if trait == "Neg" and name == "neg":
        return R(neg(D(args[0])))
    if trait == "Not" and name == "not":
        v = D(args[0])
        return R(B(NOT(tob(v)))) if dest is not None and b.ty(dest["t"])["k"] == "bool" else R(mk("op", "Not", (v,)))
    if trait == "PartialEq" and len(args) == 2:
        e = eq(D(args[0]), D(args[1]), False)
        return R(B(e if name == "eq" else NOT(e)))
    if trait == "PartialOrd" and name in ("lt", "le", "gt", "ge"):
        p, q = D(args[0]), D(args[1])
        if not ordered_ring(b, f):
            return R(B({"lt": lambda: olt(p, q), "le": lambda: NOT(olt(q, p)), "gt": lambda: olt(q, p), "ge": lambda: NOT(olt(p, q))}[name]()))
        return R(B({"lt": lambda: lt(p, q), "le": lambda: le(p, q), "gt": lambda: lt(q, p), "ge": lambda: le(q, p)}[name]()))
    if name in ("min", "max") and len(args) == 2 and (trait == "Ord" or d.startswith("core::cmp")):
        p, q = D(args[0]), D(args[1])
        if q.id < p.id:
            p, q = q, p
        return R(mk("call", name, (p, q), None))
    if trait == "Ord" and name == "cmp":
        return R(mkcmp(D(args[0]), D(args[1])))
    if name in ("then", "then_with") and d.startswith("core::cmp") and len(args) == 2:
        v = D(args[0])
        c = is_variant(v, "Equal", VARIANTS["Ordering"])
        r, s2 = ev.apply(b, st, args[1], [], g, cond=c) if name == "then_with" else (D(args[1]), st)
        return cases([(c, r), (NOT(c), v)]), s2
    if name == "reverse" and d.startswith("core::cmp") and len(args) == 1:
        r = revcmp(D(args[0]))
        return None if r is None else R(r)
    if name in ("zero",) and not args:
        return R(const(0))
    if name in ("one",) and not args:
        return R(const(1))
    if name == "is_zero" and len(args) == 1:
        return R(B(eq(D(args[0]), const(0))))
    if name == "is_one" and len(args) == 1:
        return R(B(eq(D(args[0]), const(1))))
    if name in ("pow",) and len(args) == 2:
        return R(mk("call", "pow", (D(args[0]), D(args[1])), None))

    # -------- transparent
    if name in E.TRANSPARENT and len(args) == 1 and d.startswith(("core::", "alloc::", "std::", "itertools::", "num_traits::", "rayon")):
        # keep mutable references through as_mut & co.
        if name in ("deref_mut", "as_mut", "borrow_mut", "by_ref", "as_mut_slice") and args[0].op == "mref":
            if name == "as_mut":
                v = D(args[0])
                if v.op == "agg" and v.a[0] == "Option" or adt_of(b, tykind(b, dest)) == "Option":
                    return R(mapcases(v, lambda l: l))
            return R(args[0])
        return R(D(args[0]) if args[0].op == "mref" else args[0])
    if d.startswith("alloc::boxed") and name in ("new", "pin") or (d.startswith(("alloc::rc", "alloc::sync")) and name == "new"):
        return R(args[0])
    if name in ("unwrap", "expect") and d.startswith("std::sync") and args:
        return R(args[0])
    if trait in ("Into", "From") and len(args) == 1:
        ty = tykind(b, dest)
        v = D(args[0])
        if ty is None and f.get("targs"):
            # `Into::into` as a value: the target is a type argument
            ty = b.ty(f["targs"][1 if trait == "Into" and len(f["targs"]) > 1 else 0])
        if ty is None:
            return R(mk("call", "into", (v,), None))
        if ty["k"] == "int":
            if v.op == "b":
                return R(cases([(v.a[0], const(1)), (NOT(v.a[0]), const(0))]))
            return R(v)
        a = adt_of(b, ty)
        if v.op == "const" and isinstance(v.a[0], int) and ty["k"] == "param":
            return R(v)
        if a in ("Vec", "VecDeque", "Box", "Rc", "Arc", "HashMap", "HashSet", "BTreeMap", "BTreeSet", "Cow", "String"):
            return R(v)
        tb = ev.target_body(f)
        if tb is not None and ev.should_inline(tb, cn):
            return ev.run(tb, list(args), st, g)
        res = mk("call", "into:" + a, (v,), None)
        if ev.recording:
            ev.events.append(E.Event(kind="call", gate=g, gens=ev.gens, name="into:" + a, args=(v,), roots=(None,), res=res, fn=b.key,
                                     line=(b.file, line), site=ev.newsite(), block=x, extra=f, stack=tuple(ev.stack)))
        return R(res)
    if trait == "ToString" or name == "to_string":
        return R(mk("call", "to_string", (D(args[0]),), None)) if args else None

    # -------- Option / Result
    isopt = d.startswith("core::option")
    isres = d.startswith("core::result")
    if trait == "Try" and name == "branch":
        v = D(args[0])
        kind = "Option" if "Option" in (b.ty(f["self"])["s"] if "self" in f else "") [:24] else "Result"
        s = b.ty(f["self"]) if "self" in f else {"k": ""}
        if s["k"] == "adt":
            kind = last(s["adt"])
        good = "Some" if kind == "Option" else "Ok"
        allv = OPT if kind == "Option" else RES
        isg = is_good(ev, v, good, allv)
        cont = mk("agg", "ControlFlow", "Continue", (E.payload(v, good),), ("0",))
        brk = mk("agg", "ControlFlow", "Break", (mk("residual", v, kind),), ("0",))
        return R(cases([(isg, cont), (NOT(isg), brk)]))
    if trait == "FromResidual":
        v = args[0]
        if v.op == "residual":
            if v.a[1] == "Option":
                return R(NONE)
            return R(Err(E.payload(v.a[0], "Err")))
        if v.op == "cases":
            return R(mapcases(v, lambda l: NONE if l.op == "residual" and l.a[1] == "Option" else Err(E.payload(l.a[0], "Err")) if l.op == "residual" else mk("call", "from_residual", (l,), None)))
        return R(mk("call", "from_residual", (D(v),), None))
    if isopt or isres:
        r = optres(ev, b, st, g, f, name, args, isopt, dest, line, x)
        if r is not None:
            return r
    if d.startswith("core::bool") and name in ("then", "then_some"):
        c = tob(args[0])
        if name == "then_some":
            return R(cases([(c, Some(args[1])), (NOT(c), NONE)]))
        v, s2 = ev.apply(b, st, args[1], [], g, cond=c)
        _, s3 = ev.merge([(c, s2), (NOT(c), st)])
        return cases([(c, Some(v)), (NOT(c), NONE)]), s3

    # -------- mem
    if d.startswith("core::mem") and name in ("take", "replace", "swap"):
        if args[0].op == "mref":
            root, path = args[0].a
            old = ev.read(st, root, path)
            s2 = dict(st)
            if name == "swap" and args[1].op == "mref":
                o2 = ev.read(st, *args[1].a)
                ev.write(s2, root, path, o2)
                ev.write(s2, args[1].a[0], args[1].a[1], old)
                return UNIT, s2
            nv = mk("call", "default", (), f"{b.key}#{x}") if name == "take" else args[1]
            if ev.recording:
                ev.events.append(E.Event(kind="write" if root[0] == "P" else "lwrite", gate=g, gens=ev.gens, name="=", args=(old, D(nv)),
                                         roots=((root, path), None), fn=b.key, line=(b.file, line), site=ev.newsite(), block=x,
                                         stack=tuple(ev.stack), extra=old))
            ev.write(s2, root, path, nv)
            return old, s2

    if name == "map" and d.startswith("core::array") and len(args) == 2:
        v = D(args[0])
        if v.op == "agg" and v.a[0] == "array" and len(v.a[2]) <= 8:
            out, s2 = [], st
            for w in v.a[2]:
                r, s2 = ev.apply(b, s2, args[1], [w], g)
                out.append(r)
            return mk("agg", "array", "array", tuple(out)), s2

    if name == "contains" and d.startswith("core::ops::range") and len(args) == 2:
        v, w = D(args[0]), D(args[1])
        t = f.get("targs")
        ring = bool(t) and adt_of(b, b.ty(t[0])) in INTS
        less = lt if ring else olt
        lq = le if ring else (lambda p, q: NOT(olt(q, p)))
        lo = hi = None
        if v.op == "agg" and v.a[0] in ("Range", "RangeFrom", "RangeTo", "RangeToInclusive"):
            n = v.a[0]
            lo = v.a[2][0] if n in ("Range", "RangeFrom") else None
            hi = v.a[2][-1] if n != "RangeFrom" else None
            return R(B(AND(lq(lo, w) if lo is not None else TRUE, (lq if n == "RangeToInclusive" else less)(w, hi) if hi is not None else TRUE)))
        if v.op == "call" and last(str(v.a[0])) in ("new", "RangeInclusive::new") and len(v.a[1]) == 2:
            return R(B(AND(lq(v.a[1][0], w), lq(w, v.a[1][1]))))

    # -------- lengths
    if name == "len" and len(args) == 1 and d.startswith(("core::", "alloc::", "std::", "hashbrown", "itertools")):
        v = D(args[0])
        L = mklen(v)
        if v.op in ("collect", "call") and ("collections::hash" in d or "collections::btree" in d):
            # duplicates do not count
            L = mk("len", mk("setof", v))
        if ev.recording:
            ev.events.append(E.Event(kind="len", gate=g, gens=ev.gens, name="len", args=(v,), roots=(None,), res=L, fn=b.key,
                                     line=(b.file, line), site=ev.newsite(), block=x, stack=tuple(ev.stack)))
        return R(L)
    if name == "is_empty" and len(args) == 1 and d.startswith(("core::", "alloc::", "std::", "hashbrown")):
        v = D(args[0])
        return R(B(unsig1(mklen(v))))
    if trait == "Index" or trait == "IndexMut":
        v, i = D(args[0]), D(args[1])
        if i.op in ("agg", "const", "item") and "RangeFull" in pp(i):
            return R(args[0] if args[0].op == "mref" else v)
        if trait == "IndexMut" and args[0].op == "mref" and adt_of(b, b.ty(f["self"])) in ("Vec", "VecDeque"):
            return R(mk("mref", args[0].a[0], args[0].a[1] + (("[]", i),)))
        return R(E.proj(v, ("[]", i)) if i.op != "agg" else mk("idx", v, i))
    if name == "box_assume_init_into_vec_unsafe" and args and E.uninit(args[0]):
        base = args[0]
        for root in list(st):
            if root[0] == "P" and E.uninit(root[1]) and (root[1] is base or base in walk(root[1])):
                w = ev.read(st, root, ())
                for fld in ("value", "value"):
                    w = E.proj(w, (".", fld, ""))
                w = D(w)
                if w.op == "agg" and dest is not None and not dest["p"] and mutated(b, dest["l"]):
                    res = mk("call", "vecof", (w,), f"{b.key}#{x}")
                    if ev.recording:
                        ev.events.append(E.Event(kind="call", gate=g, gens=ev.gens, name="vecof", args=(w,), roots=(None,), res=res, fn=b.key,
                                                 line=(b.file, line), site=ev.newsite(), block=x, stack=tuple(ev.stack)))
                    return R(res)
                return R(w)
    if name in ("vec", "into_vec", "box_assume_init_into_vec_unsafe") and args:
        return R(D(args[-1]))
    if name == "unreachable":
        return None

    if name in ("first_key_value", "first") and d.startswith("alloc::collections::btree") and len(args) == 1:
        c = ev.as_comp(D(args[0]))
        if c.op in ("comp", "chain"):
            return R(mk("nextof", c, ev.iterate(c)[1]))
    if d.startswith(("core::slice", "alloc::vec", "alloc::collections::vec_deque")) and args:
        v = D(args[0])
        L = mklen(v)
        if name == "contains" and len(args) == 2:
            return R(B(member(ev, ev.as_comp(v), D(args[1]))))
        if name in ("get", "get_mut") and len(args) == 2 and D(args[1]).op != "agg":
            i = D(args[1])
            c = lt(i, L)
            if name == "get_mut":
                if args[0].op != "mref":
                    return None
                w = mk("mref", args[0].a[0], args[0].a[1] + (("[]", i),))
            else:
                w = E.proj(v, ("[]", i))
            return R(cases([(c, Some(w)), (NOT(c), NONE)]))
        if name in ("first", "last", "front", "back") and len(args) == 1:
            c = NOT(unsig1(L))
            w = E.proj(v, ("[]", const(0) if name in ("first", "front") else add(L, const(1), -1)))
            return R(cases([(c, Some(w)), (NOT(c), NONE)]))
        if name in ("split_first", "split_last") and len(args) == 1:
            c = NOT(unsig1(L))
            q = ev.as_comp(v)
            i = const(0) if name == "split_first" else add(L, const(1), -1)
            tag = mk("skip", q, const(1)) if name == "split_first" else mk("take", q, i)
            rest = mk("comp", (tag,), mk("elem", tag) if q.op == "chain" else q.a[1], q.a[2] if q.op == "comp" else TRUE)
            w = mk("agg", "tuple", "tuple", (E.proj(v, ("[]", i)), rest))
            return R(cases([(c, Some(w)), (NOT(c), NONE)]))
    if name in SORTS and args[0].op == "mref" and d.startswith(("core::slice", "alloc::slice", "alloc::vec", "alloc::collections")):
        v = D(args[0])
        c = ev.as_comp(v)
        lam = ()
        s2 = st
        if len(args) > 1:
            if args[1].op not in ("closure", "fnval"):
                return None
            n = 1 if name.endswith("key") else 2
            el = c.a[1] if v.op == "collect" and c.op == "comp" else mk("elem", v)
            aa = [el] if n == 1 else [mk("hoarg", "sort", (v,), 0), mk("hoarg", "sort", (v,), 1)]
            r, si, s2 = ev.apply_ho(b, st, args[1], aa, g, "sort", gens=(v,))
            lam = (mk("lambda", ev.deep(r, si)),)
        lam = sortkey(lam, v)
        if v.op == "collect" and c.op == "comp":
            lam = tuple(replace(q, {mk("elem", v): c.a[1]}) for q in lam)
            if lam and lam[0].a[0] is c.a[1]:
                lam = ()
        if ev.recording:
            ev.events.append(E.Event(kind="call", gate=g, gens=ev.gens, name="sort" if "sort" in name else "dedup", args=(v,) + lam,
                                     roots=((args[0].a[0], args[0].a[1]), None), res=UNIT, fn=b.key, line=(b.file, line), site=ev.newsite(),
                                     block=x, extra=f, stack=tuple(ev.stack)))
        return UNIT, s2

    # -------- iterators
    if trait in ITER_TRAITS or (name in E.ITER_SRC and len(args) == 1 and d.startswith(("core::", "alloc::", "std::", "hashbrown", "rayon"))) \
            or (name == "drain" and d.startswith(("alloc::", "std::"))) \
            or d.startswith(("itertools::", "core::iter::")):
        r = iters(ev, b, st, g, f, name, trait, args, dest, line, x)
        if r is not None:
            return r
    if name in ("retain", "retain_mut") and len(args) == 2 and d.startswith(("alloc::", "std::", "hashbrown")):
        src = D(args[0])
        el = mk("elem", src)
        clo = args[1]
        if clo.op in ("closure", "fnval"):
            nclo = ev.p.bodies.get(clo.a[0]).nargs - 1 if clo.op == "closure" and ev.p.bodies.get(clo.a[0]) else 1
            if nclo == 2:   # maps: (key, value)
                a = [E.proj(el, (".", "0", "tuple")), E.proj(el, (".", "1", "tuple"))]
            else:
                a = [el]
            if name == "retain_mut" or nclo == 2:
                q = a[-1]
                st = dict(st)
                st[("P", q)] = q
                a[-1] = mk("mref", ("P", q), ())
            v, si, s2 = ev.apply_ho(b, st, clo, a, g, "retain", gens=(src,))
            s2.pop(("P", a[-1].a[0][1]) if a[-1].op == "mref" else None, None)
            pred = B(tob(ev.deep(v, si)))
        else:
            pred, s2 = clo, st
        res = UNIT
        if ev.recording:
            ev.events.append(E.Event(kind="call", gate=g, gens=ev.gens, name="retain", args=(src, pred),
                                     roots=((args[0].a[0], args[0].a[1]) if args[0].op == "mref" else None, None),
                                     res=res, fn=b.key, line=(b.file, line), site=ev.newsite(), block=x, extra=f, stack=tuple(ev.stack)))
        return res, s2
    return None


SORTS = {"sort", "sort_unstable", "sort_by", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key",
         "dedup", "dedup_by_key", "dedup_by"}


def member(ev, c, y):
    if c.op == "chain":
        return OR(*[member(ev, q, y) for q in c.a[0]])
    if c.op == "comp":
        k = AND(c.a[2], eq(c.a[1], y))
        return ev.mkexists(c.a[0], k) if c.a[0] else k
    return ev.mkexists((c,), eq(mk("elem", c), y))


def mutated(b, l):
    return any(r[0] == "ref" and r[1] == "mut" and r[2]["l"] == l for bl in b.blocks for _, r, *_ in bl["s"])


def mkcmp(p, q):
    """Tuples compare lexicographically."""
    if p.op == "agg" and q.op == "agg" and p.a[0] == q.a[0] == "tuple" and len(p.a[2]) == len(q.a[2]) <= 4 and p.a[2]:
        r = mkcmp(p.a[2][-1], q.a[2][-1])
        for x, y in reversed(list(zip(p.a[2][:-1], q.a[2][:-1]))):
            v = mkcmp(x, y)
            c = is_variant(v, "Equal", VARIANTS["Ordering"])
            r = cases([(c, r), (NOT(c), v)])
        return r
    if p.op == "agg" and q.op == "agg" and p.a[0] == q.a[0] == "Reverse" and len(p.a[2]) == len(q.a[2]) == 1:
        return mkcmp(q.a[2][0], p.a[2][0])
    return mk("call", "cmp", (p, q), None)


def revcmp(v):
    if v.op == "cases":
        return cases([(c, revcmp(l)) for c, l in v.a[0]])
    if v.op == "call" and v.a[0] == "cmp":
        return mkcmp(v.a[1][1], v.a[1][0])
    if v.op == "agg" and v.a[0] == "Ordering":
        return mk("agg", "Ordering", {"Less": "Greater", "Greater": "Less"}.get(v.a[1], v.a[1]), *v.a[2:])
    return None


def sortkey(lam, src):
    """`sort_by(|a, b| key(a).cmp(key(b)))` is `sort_by_key(key)`; sorting by the
    element itself is plain sorting."""
    if not lam or lam[0] is None:
        return ()
    r = lam[0].a[0] if lam[0].op == "lambda" else lam[0]
    el = mk("elem", src)
    h = [mk("hoarg", "sort", (src,), i) for i in (0, 1)]
    if r.op == "call" and r.a[0] == "cmp":
        p, q = r.a[1]
        sub = lambda t, x: replace(t, {x: el})
        if h[0] in walk(p) and h[1] in walk(q) and sub(p, h[0]) is sub(q, h[1]):
            r = sub(p, h[0])
        elif h[1] in walk(p) and h[0] in walk(q) and sub(p, h[1]) is sub(q, h[0]):
            r = mk("agg", "Reverse", "Reverse", (sub(p, h[1]),), ("0",))
    if r is el:
        return ()
    return (mk("lambda", r),)


def replace(t, m):
    if t in m:
        return m[t]
    import summ
    return summ.Rewrite(pre=lambda x: m.get(x)).t(t)


def mklen(v):
    if v.op == "agg" and v.a[0] == "array":
        return const(len(v.a[2]))
    if v.op == "collect":
        return mk("len", v)
    return mk("len", v)


def _S():
    import summ
    return summ


def is_good(ev, v, good, allv):
    if v.op == "collect" and len(v.a) > 1 and v.a[1] in ("Result", "Option"):
        return NOT(ev.comp_bool(v.a[0], lambda e: NOT(is_variant(e, good, allv))))
    return is_variant(v, good, allv)


def optres(ev, b, st, g, f, name, args, isopt, dest, line, x):
    R = lambda t: (t, st)
    D = lambda t: ev.deep(t, st)
    good, allv = ("Some", OPT) if isopt else ("Ok", RES)
    wrap = Some if isopt else Ok
    if not args:
        return None
    v0 = args[0]
    v = D(v0)
    isg = lambda: is_good(ev, v, good, allv)
    pay = lambda: E.payload(v, good)
    bad = lambda: NONE if isopt else Err(E.payload(v, "Err"))

    def ap(clo, a, cond):
        r, s2 = ev.apply(b, st, clo, a, g, cond=cond)
        if s2 is not st:
            _, s2 = ev.merge([(cond, s2), (NOT(cond), st)]) if cond not in (TRUE, FALSE) else (0, s2)
        return r, s2
    if name in ("unwrap", "expect", "unwrap_unchecked"):
        if ev.recording:
            ev.events.append(E.Event(kind="assert", gate=g, gens=ev.gens, name="unwrap", args=(B(isg()),), roots=(), fn=b.key,
                                     line=(b.file, line), site=ev.newsite(), block=x, stack=tuple(ev.stack)))
        return R(pay())
    if name == "unwrap_err" or name == "expect_err":
        return R(E.payload(v, "Err"))
    if name in ("is_some", "is_ok"):
        return R(B(isg()))
    if name in ("is_none", "is_err"):
        return R(B(NOT(isg())))
    if name in ("cloned", "copied", "as_ref", "as_deref", "as_mut", "as_deref_mut"):
        return R(v)
    if name == "ok" and not isopt:
        c = isg()
        return R(cases([(c, Some(pay())), (NOT(c), NONE)]))
    if name == "err" and not isopt:
        c = isg()
        return R(cases([(NOT(c), Some(E.payload(v, "Err"))), (c, NONE)]))
    if name == "map":
        c = isg()
        r, s2 = ap(args[1], [pay()], c)
        return cases([(c, wrap(r)), (NOT(c), bad())]), s2
    if name == "map_err":
        c = isg()
        r, s2 = ap(args[1], [E.payload(v, "Err")], NOT(c))
        return cases([(c, Ok(pay())), (NOT(c), Err(r))]), s2
    if name == "and_then":
        c = isg()
        r, s2 = ap(args[1], [pay()], c)
        return cases([(c, r), (NOT(c), bad())]), s2
    if name in ("is_some_and", "is_ok_and"):
        c = isg()
        r, s2 = ap(args[1], [pay()], c)
        return B(AND(c, tob(r))), s2
    if name == "is_none_or":
        c = isg()
        r, s2 = ap(args[1], [pay()], c)
        return B(OR(NOT(c), tob(r))), s2
    if name == "filter":
        c = isg()
        r, s2 = ap(args[1], [pay()], c)
        k = AND(c, tob(r))
        return cases([(k, Some(pay())), (NOT(k), NONE)]), s2
    if name == "map_or":
        c = isg()
        r, s2 = ap(args[2], [pay()], c)
        return cases([(c, r), (NOT(c), args[1])]), s2
    if name == "map_or_else":
        c = isg()
        r, s2 = ap(args[2], [pay()], c)
        r2, s3 = ev.apply(b, s2, args[1], [] if isopt else [E.payload(v, "Err")], g, cond=NOT(c))
        return cases([(c, r), (NOT(c), r2)]), s3
    if name == "unwrap_or":
        c = isg()
        return R(_S().minmax(cases([(c, pay()), (NOT(c), D(args[1]))])))
    if name == "unwrap_or_default":
        c = isg()
        ty = b.ty(dest["t"]) if dest is not None else None
        dv = const(0) if ty and ty["k"] == "int" else FF if ty and ty["k"] == "bool" else mk("call", "default", (), None)
        return R(_S().minmax(cases([(c, pay()), (NOT(c), dv)])))
    if name == "unwrap_or_else":
        c = isg()
        r, s2 = ap(args[1], [] if isopt else [E.payload(v, "Err")], NOT(c))
        return cases([(c, pay()), (NOT(c), r)]), s2
    if name == "or":
        c = isg()
        return R(cases([(c, v), (NOT(c), D(args[1]))]))
    if name == "or_else":
        c = isg()
        r, s2 = ap(args[1], [] if isopt else [E.payload(v, "Err")], NOT(c))
        return cases([(c, v), (NOT(c), r)]), s2
    if name == "and":
        c = isg()
        return R(cases([(c, D(args[1])), (NOT(c), bad())]))
    if name == "ok_or":
        c = isg()
        return R(cases([(c, Ok(pay())), (NOT(c), Err(D(args[1])))]))
    if name == "ok_or_else":
        c = isg()
        r, s2 = ap(args[1], [], NOT(c))
        return cases([(c, Ok(pay())), (NOT(c), Err(r))]), s2
    if name == "take" and isopt and v0.op == "mref":
        s2 = dict(st)
        ev.write(s2, v0.a[0], v0.a[1], NONE)
        if ev.recording:
            ev.events.append(E.Event(kind="write" if v0.a[0][0] == "P" else "lwrite", gate=g, gens=ev.gens, name="=", args=(v, NONE),
                                     roots=((v0.a[0], v0.a[1]), None), fn=b.key, line=(b.file, line), site=ev.newsite(), block=x,
                                     stack=tuple(ev.stack), extra=v))
        return v, s2
    if name == "flatten" and isopt:
        c = isg()
        return R(cases([(c, pay()), (NOT(c), NONE)]))
    if name == "transpose":
        return R(mk("call", "transpose", (v,), None))
    if name == "zip" and isopt:
        w = D(args[1])
        c = AND(isg(), is_variant(w, "Some", OPT))
        return R(cases([(c, Some(mk("agg", "tuple", "tuple", (pay(), E.payload(w, "Some"))))), (NOT(c), NONE)]))
    if name in ("iter", "into_iter", "iter_mut"):
        c = isg()
        return R(mk("comp", (), pay(), c))
    return None


def iters(ev, b, st, g, f, name, trait, args, dest, line, x):
    R = lambda t: (t, st)
    D = lambda t: ev.deep(t, st)

    def clos(clo, a, gens, cond):
        """apply closure per element; the state is havocked by what it changes."""
        nonlocal st
        r, s2, st = ev.apply_ho(b, st, clo, a, g, name, gens=gens, cond=cond)
        return ev.deep(r, s2)

    if name == "empty" and not args:
        return R(mk("chain", ()))
    if name in ("once", "repeat_n") and args:
        return R(mk("comp", (), D(args[0]), TRUE) if name == "once" else mk("comp", (mk("repeat", D(args[0]), D(args[1])),), D(args[0]), TRUE))
    if not args:
        return None
    v0 = D(args[0])
    if name in ("values", "into_values", "values_mut"):
        s = srcof(v0)
        return R(mk("comp", (s,), E.proj(mk("elem", s), (".", "1", "tuple")), TRUE))
    if name in ("keys", "into_keys"):
        s = srcof(v0)
        return R(mk("comp", (s,), E.proj(mk("elem", s), (".", "0", "tuple")), TRUE))
    if name in ("iter", "into_iter", "iter_mut", "into_par_iter", "par_iter", "par_iter_mut", "drain", "chars", "bytes", "into_iter_sorted", "par_bridge"):
        ty = b.ty(f["self"]) if "self" in f else None
        if ty is not None and (adt_of(b, ty) == "Option" or ty["k"] == "param" and v0 in ev.opts) and v0.op not in ("comp", "chain"):
            return R(mk("comp", (), E.payload(v0, "Some"), is_variant(v0, "Some", OPT)))
        if v0.op == "agg" and v0.a[0] == "Range":
            return R(mk("comp", (v0,), mk("elem", v0), TRUE))
        if name == "drain" and len(args) == 2 and not (D(args[1]).op in ("agg", "const", "item") and "RangeFull" in pp(D(args[1]))):
            return None
        if name == "drain" and args[0].op == "mref":
            rec_event(ev, b, g, "drain", (v0,), args, st, line, x, f)
        return R(ev.as_comp(v0))
    c = ev.as_comp(v0) if name not in ("next", "from_iter", "extend") else None
    if name == "next":
        if v0.op in ("comp", "chain"):
            gens, el, cond = ev.iterate(v0)
            return R(mk("nextof", v0, el))
        return None
    if name == "map":
        return R(ev.cmap(c, lambda gs, e, cd: mk("comp", gs, clos(args[1], [e], gs, cd), cd)))
    if name in ("cloned", "copied", "rev", "sorted", "fuse", "peekable", "by_ref", "inspect", "with_min_len", "unique", "dedup", "sorted_by_key",
                "sorted_by", "sorted_unstable", "sorted_unstable_by_key", "multipeek", "unique_by", "dedup_by"):
        if name == "inspect":
            ev.cmap(c, lambda gs, e, cd: mk("comp", gs, (clos(args[1], [e], gs, cd), e)[1], cd))
        if name in ("rev", "sorted_by_key", "sorted_by", "unique_by", "dedup_by", "unique", "dedup", "sorted", "sorted_unstable", "sorted_unstable_by_key"):
            lam = ()
            src = mk("collect", c)
            if len(args) > 1 and args[1].op in ("closure", "fnval") and c.op == "comp":
                n = 2 if name in ("sorted_by", "dedup_by") else 1
                aa = [c.a[1]] if n == 1 else [mk("hoarg", "sort", (src,), 0), mk("hoarg", "sort", (src,), 1)]
                lam = (mk("lambda", clos(args[1], aa, c.a[0], c.a[2])),)
                if n == 1 and name.startswith("sort") and lam[0].a[0] is c.a[1]:
                    lam = ()
                if n == 2 and name.startswith("sort"):
                    lam = sortkey(lam, src)
                    if lam and c.op == "comp":
                        lam = tuple(replace(q, {mk("elem", src): c.a[1]}) for q in lam)
            kind = "sort" if name.startswith("sorted") else name.split("_")[0]
            rec_event(ev, b, g, "iter:" + kind, (src,) + lam, args, st, line, x, f)
        return R(c)
    if name == "filter":
        return R(ev.cmap(c, lambda gs, e, cd: mk("comp", gs, e, AND(cd, tob(clos(args[1], [e], gs, cd))))))
    if name in ("filter_map", "flat_map", "flatten", "flat_map_iter"):
        def fm(gs, e, cd):
            r = e if name == "flatten" else clos(args[1], [e], gs, cd)
            isO = name == "filter_map" or (r.op == "agg" and r.a[0] in ("Option", "Result")) or \
                (r.op == "cases" and all(l.op == "agg" and l.a[0] in ("Option", "Result") for _, l in r.a[0]))
            if name in ("flat_map", "flat_map_iter") and not isO and r.op != "cases" and args[1].op == "closure":
                cb = ev.p.bodies.get(args[1].a[0])
                isO = cb is not None and adt_of(cb, cb.ty(cb.locals[0][0])) == "Option"
            if isO:
                ok = "Ok" if r.op in ("agg", "cases") and "Result" in repr_head(r) else "Some"
                return mk("comp", gs, E.payload(r, ok), AND(cd, is_variant(r, ok, OPT if ok == "Some" else RES)))
            if r.op == "cases":
                parts = []
                for cc, l in r.a[0]:
                    lc = ev.as_comp(l)
                    for q in (lc.a[0] if lc.op == "chain" else [lc]):
                        parts.append(mk("comp", gs + q.a[0], q.a[1], AND(cd, cc, q.a[2])))
                return mk("chain", tuple(parts)) if len(parts) != 1 else parts[0]
            inner = ev.as_comp(r)
            return ev.cmap(inner, lambda g2, e2, c2: mk("comp", gs + g2, e2, AND(cd, c2)))
        return R(ev.cmap(c, fm))
    if name == "map_while" or name == "take_while" or name == "skip_while":
        def tw(gs, e, cd):
            r = clos(args[1], [e], gs, cd)
            if name == "map_while":
                return mk("comp", gs, E.payload(r, "Some"), AND(cd, is_variant(r, "Some", OPT)))
            p = tob(r)
            return mk("comp", gs, e, AND(cd, p)) if name == "take_while" else mk("comp", gs + (mk("while", name),), e, cd)
        return R(ev.cmap(c, tw))
    if name == "enumerate":
        if c.op == "comp":
            return R(mk("comp", c.a[0], mk("agg", "tuple", "tuple", (mk("index", c), c.a[1])), c.a[2]))
        return R(mk("comp", (c,), mk("agg", "tuple", "tuple", (mk("index", c), mk("elem", c))), TRUE))
    if name in ("zip", "zip_eq") and len(args) == 2:
        d2 = ev.as_comp(D(args[1]))
        if c.op == "comp" and d2.op == "comp":
            return R(mk("comp", (mk(name, c.a[0], d2.a[0]),), mk("agg", "tuple", "tuple", (c.a[1], d2.a[1])), AND(c.a[2], d2.a[2])))
        z = mk(name, (c,), (d2,))
        return R(mk("comp", (z,), mk("agg", "tuple", "tuple", (mk("elem", c), mk("elem", d2))), TRUE))
    if name == "chain" and len(args) == 2:
        d2 = ev.as_comp(D(args[1]))
        parts = (list(c.a[0]) if c.op == "chain" else [c]) + (list(d2.a[0]) if d2.op == "chain" else [d2])
        return R(mk("chain", tuple(parts)))
    if name in ("skip", "take", "step_by"):
        n = D(args[1])
        tag = mk(name, c, n)
        return R(mk("comp", (tag,), mk("elem", tag) if c.op == "chain" else c.a[1], c.a[2] if c.op == "comp" else TRUE))
    if name in ("any", "all", "is_empty") and len(args) == 2:
        pol = name == "any"

        def each(cc):
            if cc.op == "chain":
                return OR(*[each(q) for q in cc.a[0]])
            r = tob(clos(args[1], [cc.a[1]], cc.a[0], cc.a[2]))
            k = AND(cc.a[2], r if pol else NOT(r))
            return k if not cc.a[0] else ev.mkexists(cc.a[0], k)
        r = each(c)
        return R(B(r if pol else NOT(r)))
    if name == "contains" and len(args) == 2 and trait == "Itertools":
        return R(B(member(ev, c, D(args[1]))))
    if name in ("for_each", "try_for_each"):
        rr = []

        def fe(gs, e, cd):
            rr.append((clos(args[1], [e], gs, cd), gs, cd))
            return mk("comp", gs, e, cd)
        ev.cmap(c, fe)
        if name == "try_for_each" and rr:
            bad = FALSE
            for r, gs, cd in rr:
                bad = OR(bad, ev.mkexists(gs, AND(cd, NOT(is_variant(r, "Ok", RES)))))
            return R(cases([(NOT(bad), Ok(UNIT)), (bad, Err(mk("call", "errof", (rr[0][0],), None)))]))
        return R(UNIT)
    if name in ("find", "find_map", "position", "find_or_first", "find_position"):
        if c.op == "chain":
            c = mk("comp", (c,), mk("elem", c), TRUE)
        if c.op == "comp":
            r = clos(args[1], [c.a[1]], c.a[0], c.a[2])
            p = is_variant(r, "Some", OPT) if name == "find_map" else tob(r)
            k = ev.mkexists(c.a[0], AND(c.a[2], p)) if c.a[0] else AND(c.a[2], p)
            w = E.payload(r, "Some") if name == "find_map" else (mk("index", c) if name == "position" else
                                                                     mk("agg", "tuple", "tuple", (mk("index", c), c.a[1])) if name == "find_position" else c.a[1])
            # the witness, remembered with the condition it satisfies
            w2 = mk("such", w, c.a[0], AND(c.a[2], p))
            return R(cases([(k, Some(w2)), (NOT(k), NONE)]))
        return None
    if name in ("collect", "collect_vec", "from_iter", "sum", "product", "count", "max", "min", "last", "join", "max_by_key", "min_by_key",
                "sorted_vec", "exactly_one", "at_most_one", "dedup", "into_group_map", "counts", "all_equal", "unzip", "partition",
                "into_group_map_by", "all_unique", "reduce", "fold", "try_fold", "partition_map", "try_collect", "max_by", "min_by",
                "tuple_combinations", "tuple_windows", "combinations", "cartesian_product", "multi_cartesian_product", "chunk_by",
                "group_by", "partition_result", "minmax", "min_set", "format", "interleave", "coalesce", "kmerge", "product",
                "process_results", "interleave", "merge", "counts_by", "position_max", "map_into", "rfind", "nth", "next_back"):
        c = ev.as_comp(v0)
        if name in ("collect", "collect_vec", "from_iter", "try_collect"):
            ty = b.ty(dest["t"]) if dest is not None else None
            a = adt_of(b, ty) if ty else "?"
            if a in ("Result", "Option"):
                return R(mk("collect", c, a))
            if a in ("HashMap", "HashSet", "BTreeMap", "BTreeSet"):
                return R(mk("collect", c))
            return R(mk("collect", c))
        if name == "map_into":
            return R(c)
        if name == "tuple_windows":
            return R(mk("comp", (mk("windows", c),), mk("elem", mk("windows", c)), TRUE))
        if name == "cartesian_product" and len(args) == 2:
            d2 = ev.as_comp(D(args[1]))
            if c.op == "comp" and d2.op == "comp":
                return R(mk("comp", c.a[0] + d2.a[0], mk("agg", "tuple", "tuple", (c.a[1], d2.a[1])), AND(c.a[2], d2.a[2])))
        if name == "tuple_combinations":
            z = mk("pairs", c)
            if c.op == "comp":
                # elements satisfy c's condition; keep sources visible
                e0, e1 = mk("elem", mk("pairs0", c)), mk("elem", mk("pairs1", c))
                return R(mk("comp", (z,), mk("agg", "tuple", "tuple", (e0, e1)), TRUE))
            return R(mk("comp", (z,), mk("elem", z), TRUE))
        if name in ("fold", "try_fold", "reduce"):
            accp = mk("acc", c)
            clo = args[-1]
            if c.op == "comp":
                r = clos(clo, [accp, c.a[1]], c.a[0], c.a[2])
            else:
                r = clos(clo, [accp, mk("elem", c)], (c,), TRUE)
            init = D(args[1]) if name != "reduce" else mk("none")
            if name == "fold" and r is accp and init.op == "call" and len(init.a) > 2 and init.a[2] is not None:
                # the accumulator is an object changed in place: the loop over it
                for e in ev.events:
                    if e.args and any(accp in walk(q) for q in e.args) or e.res is not None and accp in walk(e.res):
                        sub = lambda q: replace(q, {accp: init}) if isinstance(q, T) else q
                        e.args = tuple(sub(q) for q in e.args)
                        e.res = sub(e.res) if e.res is not None else None
                        e.gate = tob(sub(B(e.gate)))
                for m, (i0, vs, gs, g0) in list(ev.mus.items()):
                    sub = lambda q: replace(q, {accp: init})
                    if accp in walk(m) or any(accp in walk(v) for _, v in vs) or accp in walk(i0):
                        del ev.mus[m]
                        ev.mus[sub(m)] = (sub(i0), tuple((tob(sub(B(cc))), sub(v)) for cc, v in vs), gs, g0)
                return R(init)
            t = mk("call", name, (c, init, mk("lambda", r)), None)
            rec_event(ev, b, g, name, t.a[1], args, st, line, x, f)
            return R(t)
        lam = []
        for a in args[1:]:
            if a.op in ("closure", "fnval") and c.op == "comp":
                n = 2 if name in ("max_by", "min_by") else 1
                aa = [c.a[1]] if n == 1 else [mk("hoarg", name, (c,), 0), mk("hoarg", name, (c,), 1)]
                lam.append(mk("lambda", clos(a, aa, c.a[0], c.a[2])))
            elif a.op in ("closure", "fnval"):
                lam.append(mk("lambda", clos(a, [mk("elem", c)], (c,), TRUE)))
            else:
                lam.append(D(a))
        if name == "all_unique" or name == "all_equal":
            return R(B(var(mk("call", name, (c,), None))))
        t = mk("call", name, (c,) + tuple(lam), None)
        if name in ("max", "min") and len(args) == 1 and c.op == "chain" and any(q.op == "comp" and not q.a[0] and q.a[2] == TRUE for q in c.a[0]):
            return R(Some(t))
        if name == "partition":
            p = tob(lam[0].a[0]) if lam and lam[0].op == "lambda" else None
            if p is not None and c.op == "comp":
                return R(mk("agg", "tuple", "tuple", (mk("collect", mk("comp", c.a[0], c.a[1], AND(c.a[2], p))),
                                                      mk("collect", mk("comp", c.a[0], c.a[1], AND(c.a[2], NOT(p)))))))
        if name == "unzip" and c.op == "comp":
            return R(mk("agg", "tuple", "tuple", (mk("collect", mk("comp", c.a[0], E.proj(c.a[1], (".", "0", "tuple")), c.a[2])),
                                                  mk("collect", mk("comp", c.a[0], E.proj(c.a[1], (".", "1", "tuple")), c.a[2])))))
        rec_event(ev, b, g, "iter:" + name, t.a[1], args, st, line, x, f)
        return R(t)
    if name == "extend" and len(args) == 2:
        c2 = ev.as_comp(D(args[1]))
        rec_event(ev, b, g, "extend", (v0, c2), args, st, line, x, f)
        return R(UNIT)
    return None


def repr_head(r):
    if r.op == "agg":
        return r.a[0]
    if r.op == "cases":
        return ",".join(l.a[0] for _, l in r.a[0] if l.op == "agg")
    return ""


def srcof(v):
    if v.op == "collect":
        return v
    return v


def rec_event(ev, b, g, name, vals, args, st, line, x, f):
    if ev.recording:
        ev.events.append(E.Event(kind="call", gate=g, gens=ev.gens, name=name, args=tuple(vals),
                                 roots=tuple((a.a[0], a.a[1]) if a.op == "mref" else None for a in args),
                                 res=UNIT, fn=b.key, line=(b.file, line), site=ev.newsite(), block=x, extra=f, stack=tuple(ev.stack)))
