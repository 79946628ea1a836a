"""Differences between two summaries that are purely logical: the same effects,
results and atoms, under different conditions.

bpairs(x, y) pairs the boolean functions by which two otherwise equal terms
differ; theory(f) holds the facts about a function's atoms that the normal form
leaves implicit (a value has one variant; x >= 2 implies x >= 1)."""
from term import *
import term as TM
from ev import depends

OPENED = {"rec", "self", "acc"}


def bpairs(x, y, out, depth=0):
    """True when x and y are equal but for boolean functions, which are paired in out."""
    if x is y or x == y:
        return True
    if depth > 60:
        return False
    if isinstance(x, T) and isinstance(y, T):
        if x.op == "b" or y.op == "b":
            if x.op == "b" and y.op == "b":
                return match(x.a[0], y.a[0], out, depth)
            return False
        if x.op != y.op or len(x.a) != len(y.a):
            return False
        if x.op == "cases":
            lx, ly = [l for _, l in x.a[0]], [l for _, l in y.a[0]]
            if len(lx) != len(ly):
                return False
            if set(lx) == set(ly) and len(set(lx)) == len(lx):
                dy = {l: c for c, l in y.a[0]}
                return all(match(c, dy[l], out, depth) for c, l in x.a[0])
            return all(bpairs(l, m, out, depth + 1) and match(c, d, out, depth) for (c, l), (d, m) in zip(x.a[0], y.a[0]))
        if x.op in ("exists", "comp"):
            # a later sequence only matters for elements that pass what the
            # filter says about the earlier ones
            if len(x.a[0]) != len(y.a[0]):
                return False
            k = 1 if x.op == "exists" else 2
            for i, (p, q) in enumerate(zip(x.a[0], y.a[0])):
                if p is not q:
                    o2 = []
                    if not bpairs(p, q, o2, depth + 1):
                        return False
                    care = TM.OR(*[TM.exists_var(z.a[k], lambda t: any(depends(t, g) for g in z.a[0][i:])) for z in (x, y)])
                    out += [(f, g, TM.AND(c, care)) for f, g, c in o2]
            return (x.op == "exists" or bpairs(x.a[1], y.a[1], out, depth + 1)) and match(x.a[k], y.a[k], out, depth)
        return all(bpairs(p, q, out, depth + 1) for p, q in zip(x.a, y.a))
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(bpairs(p, q, out, depth + 1) for p, q in zip(x, y))
    return False


def match(f, g, out, depth):
    """Two conditions; atoms found on one side only are matched with their counterparts."""
    if not isinstance(f, int) or not isinstance(g, int):
        return f == g
    if f == g:
        return True
    s0, s1 = TM.support(f), TM.support(g)
    a, b = [x for x in s0 if x not in s1], [x for x in s1 if x not in s0]
    ren = {}
    for p in sorted(a):
        for q in sorted(b):
            if p.op == q.op and q not in ren:
                o2 = []
                if bpairs(p, q, o2, depth + 1):
                    ren[q] = p
                    out += o2
                    break
    if ren:
        g = TM.subst_atoms(g, lambda t: TM.var(ren[t]) if t in ren else None)
    if f != g:
        out.append((f, g, TM.TRUE))
    return True


def theory(*fs):
    """Facts about the atoms of fs, as one boolean function."""
    at = set()
    for f in fs:
        at |= TM.support(f)
    out = TM.TRUE
    byv, byl = {}, {}
    for t in at:
        if t.op == "is":
            byv.setdefault(t.a[0], []).append(t)
        elif t.op in ("ge0", "eq0"):
            c, m = TM.lin_parts(t.a[0])
            k = tuple(sorted(((x.id, v) for x, v in m.items())))
            if k and k[0][1] < 0:
                k = tuple((i, -v) for i, v in k)
                byl.setdefault(k, []).append((t, c, -1))
            else:
                byl.setdefault(k, []).append((t, c, 1))
    for v in byv.values():
        for i, p in enumerate(v):
            for q in v[i + 1:]:
                out = TM.AND(out, TM.NOT(TM.AND(TM.var(p), TM.var(q))))
    for v in byl.values():
        if len(v) < 2:
            continue
        # each atom cuts the integer line of s: intervals on which all are constant
        cuts = set()
        for t, c, s in v:
            p = -c * s
            cuts |= {p - 1, p, p + 1}
        ok = TM.FALSE
        for x in cuts:
            ok = TM.OR(ok, TM.AND(*[TM.var(t) if (s * x + c >= 0 if t.op == "ge0" else s * x + c == 0) else TM.NOT(TM.var(t)) for t, c, s in v]))
        out = TM.AND(out, ok)
    return out


def opened(t, memo={}):
    """Holds a loop that was not summarised."""
    r = memo.get(t)
    if r is None:
        memo[t] = False
        r = t.op in OPENED
        if not r:
            seen = set()
            TM.walk(t, seen)
            r = any(x.op in OPENED for x in seen)
        memo[t] = r
    return r


SOFT = {"Some", "None", "Ok", "Err", "Occupied", "Vacant"}


# effects whose own guard may be redundant, or moves with the loop
LOOSE = {"sort", "pop", "again", "next", "remove", "reserve", "clear", "entry", "or_insert", "or_default", "next_back", "drain"}


def soft(t):
    """A test that may come and go with a change of style."""
    if t.op == "is" and t.a[0].op == "call" and t.a[0].a[0].split("::")[-1] == "next":
        return False
    if t.op == "is" and str(t.a[1]) in SOFT or t.op == "exists":
        return True
    if t.op in ("ge0", "eq0"):
        return any(x.op in ("sum", "len") or x.op == "call" and x.a[0] in ("sum", "len") for x in TM.lin_parts(t.a[0])[1])
    return t.op == "call" and t.a[0].split("::")[-1] in ("contains", "contains_key", "is_empty")


def bears(e, atoms, d):
    """Tests whether something is there, by which an effect's condition differs,
    are no mere style when the effect is lost although it is there, or when the
    effect has nothing to do with it."""
    there, subj = d, []
    for t in atoms:
        if t.op == "is" and str(t.a[1]) in ("Some", "Ok") and t.a[0].op in ("param", "field", "call", "idx", "elem", "as"):
            if t.a[0].op == "call" and t.a[0].a[0].split("::")[-1] in ("entry", "next", "get", "insert", "remove", "pop"):
                return False
            there = TM.AND(there, TM.var(t))
            subj.append(t.a[0])
        elif t.op in ("ge0", "eq0"):
            xs = [x.a[0] for x in TM.lin_parts(t.a[0])[1] if x.op == "len"]
            if len(xs) != 1 or t.op != "ge0" or TM.lin_parts(t.a[0])[0] != -1:
                return False
            there = TM.AND(there, TM.var(t))
            subj += xs
        else:
            return False
    if there != TM.FALSE:
        return True
    seen = set()
    for x in e.a[1:]:
        if isinstance(x, T) and x.op == "b":
            continue
        for y in x if isinstance(x, tuple) else (x,):
            if isinstance(y, T):
                TM.walk(y, seen)
    return not any(x in seen for x in subj)


def about(t, memo={}):
    """Fields, parameters and functions occurring anywhere in a term."""
    r = memo.get(t)
    if r is None:
        r = frozenset(("." + str(x.a[1])) if x.op == "field" else ("$" + str(x.a[0])) if x.op == "param" else x.a[0].split("::")[-1]
                      for x in TM.walk(t) if x.op == "param" or x.op == "field" and not str(x.a[1]).isdigit() or x.op == "call" and "::" in x.a[0])
        memo[t] = r
    return r


def quantified(terms):
    """How each condition over the elements of a sequence is used: as a choice of
    elements, or as one answer about all of them."""
    q, first, seen, op = {}, [], set(), set()
    for t in terms:
        TM.walk(t, seen)
    for x in seen:
        if x.op in ("comp", "exists"):
            gs, f = x.a[0], x.a[1] if x.op == "exists" else x.a[2]
            if f <= 1 or not gs:
                continue
            for a in TM.support(f):
                if a.op in ("exists",):
                    continue
                q.setdefault((about(gs[-1]), a.op, about(a)), set()).add(x.op)
        elif x.op == "idx" and x.a[1].op == "const":
            first.append(about(x.a[0]))
        elif x.op == "call" and x.a[0].split("::")[-1] == "next" and x.a[1]:
            first.append(about(x.a[1][0]))
        elif x.op in OPENED or x.op in ("such", "nextof"):
            op.add(x)
    return q, first, op


def chosen(base, cur):
    q0, f0, p0 = quantified(base)
    q1, f1, p1 = quantified(cur)
    if (p0 or p1) and sorted(x.op for x in p0) != sorted(x.op for x in p1):
        return []
    ev = []
    for k in q0:
        a, b = q0[k], q1.get(k, set())
        if a == {"comp"} and b == {"exists"}:
            ev.append("a choice of elements by {" + ", ".join(sorted(k[2])[:6]) + "} became one answer for all of them")
        if a == {"exists"} and b == {"comp"}:
            ev.append("an answer about all elements by {" + ", ".join(sorted(k[2])[:6]) + "} became a choice of some")
        if a == {"exists"} and not b and len(f1) > len(f0) and any(k[0] <= y for y in f1 if y not in f0):
            ev.append("a test of every element became a test of one element")
    return ev


KIND = {"Some": ("Option", "Some"), "None": ("Option", "Some"), "Ok": ("Result", "Ok"), "Err": ("Result", "Ok")}


def leaves_of(r):
    return [l for _, l in r.a[0]] if r.op == "cases" else [r]


def aspects(r0, r1, depth=0):
    """What can be compared of two results on its own: which variant they have,
    and their parts."""
    if r0 is r1 or depth > 4:
        return
    l0, l1 = leaves_of(r0), leaves_of(r1)
    if any(l.op == "b" for l in l0) and any(l.op == "b" for l in l1):
        yield "", TM.tob(r0), TM.tob(r1)
        return
    a0, a1 = [l for l in l0 if l.op == "agg"], [l for l in l1 if l.op == "agg"]
    kinds = {KIND.get(str(l.a[1])) for l in a0 + a1}
    if a0 and a1 and len(kinds) == 1 and None not in kinds:
        n, good = kinds.pop()
        f, g = TM.is_variant(r0, good, TM.VARIANTS[n]), TM.is_variant(r1, good, TM.VARIANTS[n])
        yield " is " + good, f, g
        return
    if len(a0) == len(l0) and len(a1) == len(l1) and len({(l.a[0], l.a[1], len(l.a[2])) for l in a0 + a1}) == 1 and a0[0].a[0] not in ("array",):
        for i in range(len(a0[0].a[2])):
            parts = [TM.cases([(c, l.a[2][i]) for c, l in (r.a[0] if r.op == "cases" else [(TM.TRUE, r)])]) for r in (r0, r1)]
            for n, f, g in aspects(*parts, depth + 1):
                yield f".{i}" + n, f, g


def exchanges(x, y, out, depth=0):
    """True when x and y are equal but for exchanged leaves (a called workspace
    function, a field of the same value, a number), which are paired in out."""
    if x is y or x == y:
        return True
    if depth > 60 or len(out) > 8:
        return False
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(exchanges(a, b, out, depth + 1) for a, b in zip(x, y))
    if not (isinstance(x, T) and isinstance(y, T)) or x.op != y.op:
        return False
    if x.op in OPENED or len(x.a) != len(y.a):
        return False
    if x.op == "const":
        if all(type(t.a[0]) is int for t in (x, y)):
            out.append((x, y))
            return True
        return False
    if x.op == "b":
        return swapped(x.a[0], y.a[0], out, depth)
    if x.op in ("comp", "exists"):
        return exchanges(x.a[0], y.a[0], out, depth) and (x.op == "exists" or exchanges(x.a[1], y.a[1], out, depth)) and swapped(x.a[-1], y.a[-1], out, depth)
    if x.op == "cases":
        return len(x.a[0]) == len(y.a[0]) and all(swapped(c, d, out, depth) and exchanges(l, m, out, depth + 1) for (c, l), (d, m) in zip(x.a[0], y.a[0]))
    if x.op == "call" and x.a[0] != y.a[0]:
        if x.a[1:] == y.a[1:] and "::" in x.a[0] and "::" in y.a[0] and x.a[1]:
            out.append((x, y))
            return True
        return False
    if x.op == "field" and x.a[1] != y.a[1]:
        if x.a[0] is y.a[0] and not str(x.a[1]).isdigit():
            out.append((x, y))
            return True
        return False
    if x.op == "lin":
        (c, p), (d, q) = TM.lin_parts(x), TM.lin_parts(y)
        if c != d:
            return False
        a, b = [z for z in p.items() if z not in q.items()], [z for z in q.items() if z not in p.items()]
        return len(a) == len(b) == 1 and a[0][1] == b[0][1] and exchanges(a[0][0], b[0][0], out, depth + 1)
    for a, b in zip(x.a, y.a):
        if isinstance(a, (T, tuple)) or isinstance(b, (T, tuple)):
            if not exchanges(a, b, out, depth + 1):
                return False
        elif a != b:
            return False
    return True


def swapped(f, g, out, depth):
    if f == g:
        return True
    s0, s1 = TM.support(f), TM.support(g)
    a, b = s0 - s1, s1 - s0
    if len(a) != 1 or len(b) != 1:
        return False
    (p,), (q,) = a, b
    return TM.subst_atoms(f, lambda t: TM.var(q) if t is p else None) == g and exchanges(p, q, out, depth + 1)


def exchanged(r0, r1, lost, gained, wraps):
    if len(lost) != len(gained) or len(lost) > 6:
        return []
    out, rest = [], list(gained)
    if r0 is not r1 and not exchanges(r0, r1, out):
        return []
    for p in lost:
        for q in rest:
            o = []
            if q.op == p.op and q.a[0] == p.a[0] and exchanges(p, q, o) and o:
                rest.remove(q)
                out += o
                break
        else:
            return []
    out = set(out)
    if not 1 <= len(out) <= 2 or any(x.op == "call" and wraps(x.a[0], y.a[0]) for x, y in out):
        return []
    return [f"{TM.pp(x)[-80:]} was exchanged for {TM.pp(y)[-80:]}" for x, y in out]


def evidence(base, cur, wraps=lambda f, g: False):
    """base, cur: (ret, effects, asserts, order) in normal form."""
    r0, e0 = base[0], base[1]
    r1, e1 = cur[0], cur[1]
    pairs = []
    lost, gained = [t for t in e0 if t not in e1], [t for t in e1 if t not in e0]
    for p in sorted(lost):
        best = None
        for q in sorted(gained):
            if q.op == p.op and q.a[0] == p.a[0]:
                o = []
                if bpairs(p, q, o) and o and (best is None or len(o) < len(best[1])):
                    best = (q, o)
        if best:
            gained.remove(best[0])
            pairs += [(p, *z) for z in best[1]]
    if r0 is not r1:
        o = []
        if bpairs(r0, r1, o):
            pairs += [("the result", *z) for z in o]
    ev = chosen([r0, *e0], [r1, *e1]) + exchanged(r0, r1, [t for t in e0 if t not in e1], [t for t in e1 if t not in e0], wraps)
    if not pairs and r0 is not r1:
        for n, f, g in aspects(r0, r1):
            s0, s1 = TM.support(f), TM.support(g)
            if f == g or not (s0 <= s1 or s1 <= s0) or any(opened(t) for t in s0 | s1) or TM.AND(TM.ite(f, TM.NOT(g), g), theory(f, g)) == TM.FALSE:
                continue
            if s0 == s1:
                ev.append("whether the result" + n + " is another function of the same tests")
            elif n.endswith((" is Ok", " is Some")) and (TM.IMPL(f, g) or TM.IMPL(g, f)):
                ev.append("whether the result" + n + (" no longer depends on " if s1 < s0 else " also depends on ") + ", ".join(sorted(TM.pp(t)[:80] for t in s0 ^ s1))[:200])
    gained = [t for t in gained if t.a[0].split("::")[-1] != "next"]
    whole = len(pairs) and not gained and all(any(n is p for n, *_ in pairs) for p in lost)
    void = {(f, g) for n, f, g, c in pairs if TM.AND(TM.ite(f, TM.NOT(g), g), c, theory(f, g, c)) == TM.FALSE}
    for n, f, g, _ in pairs:
        if (f, g) in void:
            continue
        th = theory(f, g)
        d = TM.AND(TM.ite(f, TM.NOT(g), g), th)
        if d == TM.FALSE:
            continue
        s0, s1 = TM.support(f), TM.support(g)
        a, b = s0 - s1, s1 - s0
        if any(opened(t) for t in s0 | s1):
            continue
        if a and b:
            continue
        if a | b and all(soft(t) for t in a | b) and not (whole and isinstance(n, T) and n.a[0].split("::")[-1] not in LOOSE and bears(n, a | b, d)):
            continue
        n = n.a[0].split("::")[-1] if isinstance(n, T) else n
        if (a or b) and (n in LOOSE or not whole):
            continue
        what = "condition of " + n
        if not a and not b:
            ev.append(what + " is another function of the same tests")
        else:
            if not (TM.IMPL(TM.AND(f, th), g) or TM.IMPL(TM.AND(g, th), f)):
                continue
            ev.append(what + (" no longer depends on " if a else " also depends on ") + ", ".join(sorted(TM.pp(t)[:80] for t in (a or b)))[:200])
    return ev
