"""Hash-consed terms, linear normal forms and BDD gates (no solver: equality is
structural on normal forms)."""
import sys
sys.setrecursionlimit(20000)


class T:
    __slots__ = ("op", "a", "id")

    def __repr__(self):
        return pp(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_next = [0]


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a = op, a
        _next[0] += 1
        t.id = _next[0]
        _tab[k] = t
    return t


# ---------------------------------------------------------------- BDDs
FALSE, TRUE = 0, 1
_nodes = [(None, None, None), (None, None, None)]
_uniq = {}
_vars = []        # level -> atom term
_varidx = {}      # atom term -> level
_memo = {}


def _node(v, lo, hi):
    if lo == hi:
        return lo
    k = (v, lo, hi)
    n = _uniq.get(k)
    if n is None:
        n = len(_nodes)
        _nodes.append(k)
        _uniq[k] = n
        if n > 3_000_000:
            raise RuntimeError("gate too large")
    return n


def var(atom):
    i = _varidx.get(atom)
    if i is None:
        i = len(_vars)
        _vars.append(atom)
        _varidx[atom] = i
    return _node(i, FALSE, TRUE)


def _lvl(n):
    return _nodes[n][0] if n > 1 else 1 << 60


def ite(f, g, h):
    if f == TRUE:
        return g
    if f == FALSE:
        return h
    if g == h:
        return g
    if g == TRUE and h == FALSE:
        return f
    k = ("i", f, g, h)
    r = _memo.get(k)
    if r is not None:
        return r
    v = min(_lvl(f), _lvl(g), _lvl(h))

    def co(n):
        if _lvl(n) == v:
            return _nodes[n][1], _nodes[n][2]
        return n, n
    f0, f1 = co(f)
    g0, g1 = co(g)
    h0, h1 = co(h)
    r = _node(v, ite(f0, g0, h0), ite(f1, g1, h1))
    _memo[k] = r
    return r


def AND(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
    return r


def OR(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
    return r


def NOT(x):
    return ite(x, FALSE, TRUE)


def IMPL(a, b):
    return ite(a, b, TRUE) == TRUE


def constrain(f, c):
    """Coudert-Madre generalized cofactor of f by care set c."""
    if c == TRUE or f <= 1:
        return f
    if c == FALSE:
        return FALSE
    if f == c:
        return TRUE
    k = ("c", f, c)
    r = _memo.get(k)
    if r is not None:
        return r
    v = min(_lvl(f), _lvl(c))
    c0, c1 = (_nodes[c][1], _nodes[c][2]) if _lvl(c) == v else (c, c)
    f0, f1 = (_nodes[f][1], _nodes[f][2]) if _lvl(f) == v else (f, f)
    if _lvl(f) > v and _lvl(c) == v:
        # f does not depend on v: drop v from the care set (restrict)
        r = constrain(f, OR(c0, c1))
    elif c0 == FALSE:
        r = constrain(f1, c1)
    elif c1 == FALSE:
        r = constrain(f0, c0)
    else:
        r = _node(v, constrain(f0, c0), constrain(f1, c1))
    _memo[k] = r
    return r


def support(f):
    seen, out, st = set(), set(), [f]
    while st:
        n = st.pop()
        if n <= 1 or n in seen:
            continue
        seen.add(n)
        out.add(_vars[_nodes[n][0]])
        st += [_nodes[n][1], _nodes[n][2]]
    return out


def cubes(f, limit=64):
    """Paths to TRUE as lists of (atom, polarity)."""
    out = []

    def go(n, acc):
        if len(out) >= limit or n == FALSE:
            return
        if n == TRUE:
            out.append(list(acc))
            return
        v, lo, hi = _nodes[n]
        acc.append((_vars[v], True))
        go(hi, acc)
        acc.pop()
        acc.append((_vars[v], False))
        go(lo, acc)
        acc.pop()
    go(f, [])
    return out


def subst_atoms(f, fn, memo=None):
    """Replace atoms: fn(atom) -> bdd or None."""
    if memo is None:
        memo = {}
    if f <= 1:
        return f
    if f in memo:
        return memo[f]
    v, lo, hi = _nodes[f]
    a = fn(_vars[v])
    if a is None:
        a = _node(v, FALSE, TRUE)
    r = ite(a, subst_atoms(hi, fn, memo), subst_atoms(lo, fn, memo))
    memo[f] = r
    return r


def exists_var(f, pred):
    """Existentially quantify atoms satisfying pred."""
    for at in support(f):
        if pred(at):
            i = _varidx[at]
            f = OR(_restrict(f, i, 0), _restrict(f, i, 1))
    return f


def forall_var(f, pred):
    return NOT(exists_var(NOT(f), pred))


def _restrict(f, i, val):
    memo = {}

    def go(n):
        if n <= 1 or _nodes[n][0] > i:
            return n
        if n in memo:
            return memo[n]
        v, lo, hi = _nodes[n]
        if v == i:
            r = hi if val else lo
        else:
            r = _node(v, go(lo), go(hi))
        memo[n] = r
        return r
    return go(f)


def restrict(f, atom, val):
    i = _varidx.get(atom)
    return f if i is None else _restrict(f, i, 1 if val else 0)


# ---------------------------------------------------------------- booleans as terms
def B(n):
    return mk("b", n)


TT = B(TRUE)
FF = B(FALSE)


def tob(t):
    """Term (boolean) -> bdd."""
    if t.op == "b":
        return t.a[0]
    if t.op == "const":
        return TRUE if str(t.a[0]) == "1" else FALSE
    if t.op == "cases":
        r = FALSE
        for c, l in t.a[0]:
            r = OR(r, AND(c, tob(l)))
        return r
    return var(t)


# ---------------------------------------------------------------- linear forms
def const(v):
    return mk("const", v)


def lin_parts(t):
    """-> (const, {term: coef})"""
    if t.op == "const" and isinstance(t.a[0], int):
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mklin(c, d):
    items = tuple(sorted(((t, k) for t, k in d.items() if k), key=lambda p: p[0].id))
    if not items:
        return const(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("lin", c, items)


def add(a, b, sb=1):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = dict(da)
    for t, k in db.items():
        d[t] = d.get(t, 0) + sb * k
    return mklin(ca + sb * cb, d)


def neg(a):
    return add(const(0), a, -1)


def mul(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == "const" and isinstance(x.a[0], int):
            c, d = lin_parts(y)
            k = x.a[0]
            return mklin(c * k, {t: v * k for t, v in d.items()})

    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    # distribute signs only for single-term forms
    def single(c, d):
        if c == 0 and len(d) == 1:
            (t, k), = d.items()
            return t, k
        return None
    sa, sb = single(ca, da), single(cb, db)
    ta, ka = sa if sa else (a, 1)
    tb_, kb = sb if sb else (b, 1)
    fs = []
    for t in (ta, tb_):
        fs += list(t.a[0]) if t.op == "mul" else [t]
    m = mk("mul", tuple(sorted(fs, key=lambda t: t.id)))
    return mklin(0, {m: ka * kb})


def over_cases(t, f):
    """f(k + case{c -> a; d -> b})  is  c & f(k + a) | d & f(k + b)"""
    if t.op == "cases" and len(t.a[0]) <= 4:
        return OR(*[AND(c, f(l)) for c, l in t.a[0]])
    if t.op == "lin":
        cs = [(x, k) for x, k in t.a[1] if x.op == "cases"]
        if len(cs) == 1 and len(cs[0][0].a[0]) <= 4:
            x, k = cs[0]
            rest = add(t, mul(const(k), x), -1)
            return OR(*[AND(c, f(add(rest, mul(const(k), l)))) for c, l in x.a[0]])
    return None


def ge0(t):
    """bdd for integer t >= 0, sign-canonical."""
    r = over_cases(t, ge0)
    if r is not None:
        return r
    c, d = lin_parts(t)
    if not d:
        return TRUE if c >= 0 else FALSE
    lead = min(d, key=lambda x: x.id)
    if d[lead] < 0:
        # t >= 0  <=>  not (-t - 1 >= 0)
        return NOT(var(mk("ge0", add(neg(t), const(-1)))))
    return var(mk("ge0", t))


def lt(a, b):
    return ge0(add(add(b, a, -1), const(-1)))


def le(a, b):
    return ge0(add(b, a, -1))


def acop(op, xs):
    """Associative-commutative operators: flat, sorted; & and | idempotent."""
    out = []
    for x in xs:
        out += list(x.a[1]) if x.op == "op" and x.a[0] == op else [x]
    if op != "BitXor":
        out = list(dict.fromkeys(out))
    if len(out) == 1:
        return out[0]
    return mk("op", op, tuple(sorted(out, key=lambda x: x.id)))


def olt(a, b):
    """a < b in a total order that arithmetic does not respect (field elements)."""
    if a is b:
        return FALSE
    for i, (x, y) in enumerate(((a, b), (b, a))):
        if x.op == "cases" and len(x.a[0]) <= 8:
            r = FALSE
            for c, l in x.a[0]:
                r = OR(r, AND(c, olt(l, y) if i == 0 else olt(y, l)))
            return r
    return var(mk("lt", a, b))


def unsig1(t):
    """x == 0 for unsigned x is not (x - 1 >= 0)."""
    return NOT(ge0(add(t, const(-1))))


def eq(a, b, unsigned=False):
    if a is b:
        return TRUE
    if a.op == "cases" or b.op == "cases":
        x, y = (a, b) if a.op == "cases" else (b, a)
        if len(x.a[0]) <= 8:
            r = FALSE
            for c, l in x.a[0]:
                r = OR(r, AND(c, eq(l, y, unsigned)))
            return r
    if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        if len(a.a[2]) == len(b.a[2]):
            return AND(*[eq(x, y, unsigned) for x, y in zip(a.a[2], b.a[2])])
    if a.op == "agg" and a.a[0] in ("Option", "Result") and not a.a[2]:
        return is_variant(b, a.a[1], VARIANTS.get(a.a[0]))
    if b.op == "agg" and b.a[0] in ("Option", "Result") and not b.a[2]:
        return is_variant(a, b.a[1], VARIANTS.get(b.a[0]))
    for x, y in ((a, b), (b, a)):
        if x.op == "agg" and x.a[0] in VARIANTS and y.op in ("call", "param", "field", "elem", "idx", "such") and y.op != "agg":
            r = is_variant(y, x.a[1], VARIANTS[x.a[0]])
            for nm, f in zip(x.a[3] if len(x.a) > 3 else [str(i) for i in range(len(x.a[2]))], x.a[2]):
                r = AND(r, eq(mk("field", mk("as", y, x.a[1]), nm), f, unsigned))
            return r
    if a.op == "b" or b.op == "b":
        x, y = tob(a), tob(b)
        return ite(x, y, NOT(y))
    isnum = lambda t: t.op in ("lin", "mul", "len") or (t.op == "const" and isinstance(t.a[0], int))
    if isnum(a) or isnum(b):
        d = add(a, b, -1)
        c, m = lin_parts(d)
        if not m:
            return TRUE if c == 0 else FALSE
        if unsigned and len(m) == 1 and abs(c) == 0:
            (t, k), = m.items()
            return unsig1(t)
        lead = min(m, key=lambda x: x.id)
        if m[lead] < 0:
            d = neg(d)
        return var(mk("eq0", d))
    x, y = (a, b) if a.id < b.id else (b, a)
    return var(mk("eq", x, y))


# ---------------------------------------------------------------- cases
VARIANTS = {"Option": ("None", "Some"), "Result": ("Ok", "Err"), "ControlFlow": ("Continue", "Break"),
            "Ordering": ("Less", "Equal", "Greater")}


def cases(lst):
    """lst of (bdd, term): disjoint conditions. Merges equal leaves, flattens."""
    acc = {}
    order = []
    for c, t in lst:
        if c == FALSE:
            continue
        if t.op == "cases":
            for c2, t2 in t.a[0]:
                cc = AND(c, c2)
                if cc == FALSE:
                    continue
                if t2 not in acc:
                    order.append(t2)
                acc[t2] = OR(acc.get(t2, FALSE), cc)
        else:
            if t not in acc:
                order.append(t)
            acc[t] = OR(acc.get(t, FALSE), c)
    if len(acc) == 1:
        return order[0]
    if not acc:
        return mk("undef")
    if all(t.op == "b" or (t.op == "const" and t.a[0] in (True, False) and isinstance(t.a[0], bool)) for t in acc):
        r = FALSE
        for t in order:
            r = OR(r, AND(acc[t], tob(t)))
        return B(r)
    return mk("cases", tuple((acc[t], t) for t in sorted(acc, key=lambda t: t.id)))


def leaves(t):
    return list(t.a[0]) if t.op == "cases" else [(TRUE, t)]


def mapcases(t, fn):
    if t.op == "cases":
        return cases([(c, fn(l)) for c, l in t.a[0]])
    return fn(t)


def is_variant(t, v, allv=None):
    """bdd: enum value t is variant v."""
    if t.op == "cases":
        r = FALSE
        for c, l in t.a[0]:
            r = OR(r, AND(c, is_variant(l, v, allv)))
        return r
    if t.op == "agg":
        return TRUE if t.a[1] == v else FALSE
    if t.op == "as":
        return TRUE if t.a[1] == v else FALSE
    if t.op == "upd":
        return is_variant(t.a[0], v, allv)
    if allv and v in allv:
        # exclusive chain encoding
        r = TRUE
        # the chain puts "interesting" variants first: all but the first listed,
        # for Option this is Some
        order = list(allv[1:]) + [allv[0]]
        if allv == VARIANTS["Result"]:
            order = ["Ok", "Err"]
        if allv == VARIANTS["ControlFlow"]:
            order = ["Continue", "Break"]
        for i, w in enumerate(order):
            last = i == len(order) - 1
            if w == v:
                return r if last else AND(r, var(mk("is", t, w)))
            r = AND(r, NOT(var(mk("is", t, w))))
        return r
    return var(mk("is", t, v))


# ---------------------------------------------------------------- printing
def pp(t, depth=12):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(pp(x, depth - 1) for x in t) + ")"
        return str(t)
    if depth <= 0:
        return "…"
    p = lambda x: pp(x, depth - 1)
    o, a = t.op, t.a
    if o == "param":
        return f"${a[1] or a[0]}"
    if o == "const":
        return repr(a[0])
    if o == "b":
        return "{" + ppb(a[0], depth - 1) + "}"
    if o == "field":
        return f"{p(a[0])}.{a[1]}"
    if o == "as":
        return f"{p(a[0])}!{a[1]}"
    if o == "is":
        return f"{p(a[0])} is {a[1]}"
    if o == "call":
        return f"{a[0]}({', '.join(p(x) for x in a[1])})" + (f"@{a[2]}" if len(a) > 2 and a[2] is not None else "")
    if o == "agg":
        if a[0] in ("tuple", "array"):
            return ("(" if a[0] == "tuple" else "[") + ", ".join(p(x) for x in a[2]) + (")" if a[0] == "tuple" else "]")
        n = a[1] if a[1] == a[0] or a[0] in ("Option", "Result") else f"{a[0]}::{a[1]}"
        names = a[3] if len(a) > 3 else ()
        if not a[2]:
            return n
        if names and not names[0].isdigit():
            return n + "{" + ", ".join(f"{k}: {p(x)}" for k, x in zip(names, a[2])) + "}"
        return n + "(" + ", ".join(p(x) for x in a[2]) + ")"
    if o == "lin":
        s = []
        for x, k in a[1]:
            s.append(("+" if k > 0 else "-") + ("" if abs(k) == 1 else str(abs(k)) + "*") + p(x))
        if a[0]:
            s.append(f"{a[0]:+d}")
        r = " ".join(s)
        return "(" + (r[1:] if r[0] == "+" else r) + ")"
    if o == "mul":
        return "*".join(p(x) for x in a[0])
    if o == "ge0":
        return p(a[0]) + ">=0"
    if o == "eq0":
        return p(a[0]) + "==0"
    if o == "eq":
        return f"{p(a[0])} == {p(a[1])}"
    if o == "lt":
        return f"{p(a[0])} < {p(a[1])}"
    if o == "cases":
        return "case{" + "; ".join(f"{ppb(c, depth-1)} -> {p(l)}" for c, l in a[0]) + "}"
    if o == "elem":
        return f"elem<{p(a[0])}>"
    if o == "comp":
        c = "" if a[2] == TRUE else " | " + ppb(a[2], depth - 1)
        return "[" + p(a[1]) + " for " + ",".join(p(g) for g in a[0]) + c + "]"
    if o == "exists":
        return "∃" + ",".join(p(g) for g in a[0]) + "{" + ppb(a[1], depth - 1) + "}"
    if o == "mu":
        return f"mu<{a[1]}#{a[0]}>"
    if o == "idx":
        return f"{p(a[0])}[{p(a[1])}]"
    if o == "lambda":
        return "λ" + p(a[0])
    if o == "closure":
        return "closure:" + a[0].split("::")[-2] + a[0].split("::")[-1] if "::" in a[0] else a[0]
    if o == "upd":
        return f"{p(a[0])}[{a[1]}:={p(a[2])}]"
    return o + "<" + ", ".join(p(x) if isinstance(x, T) else pp(x, depth - 1) for x in a) + ">"


def ppb(f, depth=12):
    if f == TRUE:
        return "T"
    if f == FALSE:
        return "F"
    cs = cubes(f, 12)
    s = " | ".join(" & ".join(("" if pol else "!") + "(" + pp(a, depth) + ")" for a, pol in c) for c in cs)
    return s


def walk(t, seen=None):
    """All subterms, through gates too."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            if x.op == "b":
                st.extend(support(x.a[0]))
            elif x.op == "cases":
                for c, l in x.a[0]:
                    st.extend(support(c))
                    st.append(l)
            elif x.op in ("exists", "comp"):
                for y in x.a:
                    if isinstance(y, int):
                        st.extend(support(y))
                    else:
                        st.append(y)
            else:
                st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)
    return seen
