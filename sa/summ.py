"""Behaviour summaries: what a function returns and changes, as terms that do not
depend on how the function is written (helpers, loop style, statement order,
local names).  Built from the gated value analysis of ev.py."""
from term import *
import term as TM
import ev as E
from known import mklen

FRESH = {"new", "default", "with_capacity", "vecof"}
ADDERS = {"push", "push_back", "insert", "extend", "extend_from_slice"}
ORDER = {"sort", "dedup", "rev", "unique"}
OUTSIDE = {"to_writer", "to_writer_pretty", "serialize_into", "create_dir_all", "write_file", "absolute", "write_record"}  # effects on the outside world
NOISE = {"reserve", "shrink_to_fit", "flush", "with_capacity", "debug", "fmt", "write_fmt", "print", "_print", "_eprint", "log", "drop"}


# ------------------------------------------------------------------ rewriting
class Rewrite:
    """Bottom-up rebuild through smart constructors.  `pre(t)` may return a
    replacement (not descended into again)."""

    def __init__(self, pre=None, post=None):
        self.pre, self.post = pre, post
        self.memo, self.bmemo = {}, {}

    def t(self, t):
        r = self.memo.get(t)
        if r is None:
            r = None
            if self.pre is not None:
                r = self.pre(t)
            if r is None:
                r = self._t(t)
                if self.post is not None:
                    r2 = self.post(r)
                    r = r if r2 is None else r2
            self.memo[t] = r
        return r

    def b(self, f):
        return subst_atoms(f, lambda a: tob2(self.t(a)), self.bmemo)

    def x(self, x):
        if isinstance(x, T):
            return self.t(x)
        if isinstance(x, tuple):
            return tuple(self.x(y) for y in x)
        return x

    def gens(self, gs):
        """-> (gens, extra condition)"""
        out, cond = (), TRUE
        for g in gs:
            h = self.t(g)
            if h is not g and h.op == "under":
                h = h.a[1]
            if h is not g and h.op == "collect" and h.a[0].op == "comp":
                out += h.a[0].a[0]
                cond = AND(cond, h.a[0].a[2])
            elif h is not g and h.op == "collect":
                out += (h.a[0],)
            else:
                out += (h,)
        return out, cond

    def _t(self, t):
        o, a = t.op, t.a
        if o == "b":
            return B(self.b(a[0]))
        if o == "cases":
            return minmax(cases([(self.b(c), self.t(l)) for c, l in a[0]]))
        if o == "lin":
            r = const(a[0])
            for x, k in a[1]:
                r = add(r, mul(const(k), self.t(x)))
            return r
        if o == "mul":
            r = const(1)
            for x in a[0]:
                r = mul(r, self.t(x))
            return r
        if o == "ge0":
            return B(ge0(self.t(a[0])))
        if o == "lt":
            return B(olt(self.t(a[0]), self.t(a[1])))
        if o == "eq0":
            return B(eq0(self.t(a[0])))
        if o == "eq":
            return B(eq(self.t(a[0]), self.t(a[1])))
        if o == "is":
            x = self.t(a[0])
            if x.op in ("agg", "cases"):
                return B(is_variant(x, a[1]))
            if x.op == "nextof" and a[1] in ("Some", "None"):
                e = nonempty(x.a[0])
                if e is not None:
                    return B(e if a[1] == "Some" else NOT(e))
            return mk("is", x, a[1])
        if o == "elem":
            h = self.t(a[0])
            if h is not a[0] and h.op == "under":
                h = h.a[1]
            if h is not a[0] and h.op == "collect" and h.a[0].op == "comp":
                return h.a[0].a[1]
            if h is not a[0] and h.op == "collect":
                return mk("elem", h.a[0])
            return mk("elem", h)
        if o == "exists":
            gs, c = self.gens(a[0])
            r = mkex(gs, AND(c, self.b(a[1])))
            return B(r)
        if o == "comp":
            gs, c = self.gens(a[0])
            return mk("comp", gs, self.t(a[1]), AND(c, self.b(a[2])))
        if o == "such":
            gs, c = self.gens(a[1])
            return mk("such", self.t(a[0]), gs, AND(c, self.b(a[2])))
        if o == "field":
            return E.proj(self.t(a[0]), (".", a[1], ""))
        if o == "as":
            return E.proj(self.t(a[0]), ("as", a[1]))
        if o == "idx":
            return E.proj(self.t(a[0]), ("[]", self.t(a[1])))
        if o == "len":
            return nlen(self.t(a[0]))
        if o == "fnval":
            return mk("fnval", a[0])
        if o == "closure":
            return mk("closure", "", self.x(a[1])) if len(a) > 1 else t
        if o == "chain":
            parts = []
            for x in a[0]:
                y = self.t(x)
                parts += list(y.a[0]) if y.op == "chain" else [y]
            return mk("chain", tuple(parts)) if len(parts) != 1 else parts[0]
        if o in ("set", "objsig"):
            return mkset(o, [self.t(x) for x in a[0]])
        return commut(mk(o, *[self.x(y) for y in a]))


def under(g, t):
    """t, which only matters when g holds (dropped by `normal`)."""
    return t if g == TRUE else mk("under", B(g), t)


def nonempty(c):
    """The sequence has a first element."""
    if c.op == "chain":
        r = FALSE
        for q in c.a[0]:
            e = nonempty(q)
            if e is None:
                return None
            r = OR(r, e)
        return r
    if c.op != "comp":
        return None
    if not c.a[0]:
        return c.a[2]
    if len(c.a[0]) == 1 and c.a[2] == TRUE:
        return lt(const(0), mk("len", c.a[0][0]))
    return mkex(c.a[0], c.a[2])


def commut(t):
    """Commutative opaque operators: operands in this process's term order."""
    if t.op == "op" and t.a[0] in ("BitAnd", "BitOr", "BitXor"):
        return acop(t.a[0], t.a[1])
    if t.op == "call" and t.a[0] in ("min", "max") and len(t.a[1]) == 2:
        return mk("call", t.a[0], tuple(sorted(t.a[1], key=lambda x: x.id)), *t.a[2:])
    if t.op == "call" and t.a[0] in ("min", "max") and len(t.a[1]) == 1 and t.a[1][0].op == "chain":
        return extremum(t.a[0], t.a[1][0].a[0])
    return t


def _single(q):
    return q.op == "comp" and not q.a[0] and q.a[2] == TRUE


def extremum(name, parts):
    """The extremum of a non-empty union of sequences: the order and the
    nesting of the parts do not matter."""
    out, todo = [], list(parts)
    while todo:
        q = todo.pop()
        if _single(q) and q.a[1].op == "call" and q.a[1].a[0] == name:
            v = q.a[1].a[1]
            if len(v) == 2:
                todo += [mk("comp", (), y, TRUE) for y in v]
                continue
            if len(v) == 1 and v[0].op == "chain" and any(_single(y) for y in v[0].a[0]):
                todo += list(v[0].a[0])
                continue
        if q not in out:
            out.append(q)
    if name == "max" and mk("comp", (), const(0), TRUE) in out and any(_single(q) and q.a[1].op == "const" and q.a[1] is not const(0) for q in out):
        out.remove(mk("comp", (), const(0), TRUE))
    return mk("call", name, (mk("chain", tuple(sorted(out, key=lambda x: x.id))),), None)


def minmax(t):
    """if a < b { a } else { b }  is  min(a, b)"""
    if t.op == "cases" and len(t.a[0]) == 2:
        (c0, x), (c1, y) = t.a[0]
        # max().unwrap_or(0)
        for c, p, d in ((c0, x, y), (c1, y, x)):
            if d is const(0) and p.op == "field" and p.a[0].op == "as":
                m = p.a[0].a[0]
                if m.op == "call" and m.a[0] == "max" and len(m.a[1]) == 1 and m.a[1][0].op in ("comp", "chain") and c == var(mk("is", m, "Some")):
                    q = m.a[1][0]
                    return extremum("max", (q.a[0] if q.op == "chain" else (q,)) + (mk("comp", (), d, TRUE),))
        if x.op in ("agg", "collect", "b") or y.op in ("agg", "collect", "b"):
            return t
        if OR(c0, c1) == TRUE:
            if c0 in (lt(x, y), le(x, y), olt(x, y), NOT(olt(y, x))):
                return commut(mk("call", "min", (x, y), None))
            if c0 in (lt(y, x), le(y, x), olt(y, x), NOT(olt(x, y))):
                return commut(mk("call", "max", (x, y), None))
    return t


_mkex = E.Ev.mkexists


class _D:
    exists1 = E.Ev.exists1


def mkex(gs, c):
    return _mkex(_D(), gs, c)


def eq0(t):
    r = over_cases(t, eq0)
    if r is not None:
        return r
    c, m = lin_parts(t)
    if not m:
        return TRUE if c == 0 else FALSE
    lead = min(m, key=lambda x: x.id)
    if m[lead] < 0:
        t = neg(t)
    return var(mk("eq0", t))


def tob2(t):
    return tob(t)


def nlen(v):
    if v.op == "collect" and v.a[0].op in ("comp", "chain") and len(v.a) == 1:
        r = const(0)
        for c in v.a[0].a[0] if v.a[0].op == "chain" else (v.a[0],):
            if c.op != "comp":
                return mklen(v)
            if not c.a[0]:
                r = add(r, const(1) if c.a[2] == TRUE else cases([(c.a[2], const(1)), (NOT(c.a[2]), const(0))]))
            elif c.a[2] == TRUE and len(c.a[0]) == 1 and c.a[0][0].op in ("param", "field", "elem", "call", "idx"):
                r = add(r, mk("len", c.a[0][0]))
            else:
                r = add(r, mk("call", "sum", (mk("comp", c.a[0], const(1), c.a[2]),), None))
        return r
    return mklen(v)


def mkset(op, items):
    return mk(op, tuple(sorted(set(items), key=lambda x: x.id)))


def fullrange(t):
    """0..x.len() -> x"""
    if t.op == "agg" and t.a[0] == "Range" and t.a[2][0] is const(0) and t.a[2][1].op == "len":
        return t.a[2][1].a[0]
    return None


def position(s):
    return mk("index", mk("comp", (s,), mk("elem", s), TRUE))


class Canon(Rewrite):
    """Counting over the positions of a sequence is iterating over it."""

    def gens(self, gs):
        out, cond = super().gens(gs)
        return tuple(fullrange(g) or g for g in out), cond

    def _t(self, t):
        if t.op == "elem":
            h = self.t(t.a[0])
            s = fullrange(h)
            if s is not None:
                return position(s)
        if t.op == "index":
            c = self.t(t.a[0])
            if c.op == "comp" and len(c.a[0]) == 1 and c.a[2] == TRUE:
                return position(c.a[0][0])
            return mk("index", c)
        if t.op == "idx":
            v, i = self.t(t.a[0]), self.t(t.a[1])
            if i.op == "index" and i.a[0].op == "comp":
                s = i.a[0].a[0][0]
                if v is s:
                    return mk("elem", s)
                if v.op == "collect" and v.a[0].op == "comp" and v.a[0].a[0] == (s,) and v.a[0].a[2] == TRUE:
                    return v.a[0].a[1]
            return E.proj(v, ("[]", i))
        return super()._t(t)


# ------------------------------------------------------------------ summary
class Summary:
    def __init__(self, body, ev, ret):
        self.body = body
        self.key = body.key
        self.events = [e for e in ev.events]
        self.mus = dict(ev.mus)
        self.analysed = set(ev.analysed)
        eff = []
        self.asserts = []
        self.reads = []
        self.idx = {}
        for i, e in enumerate(self.events):
            self.idx[id(e)] = i
            if e.kind == "assert" and e.name == "assert":
                self.asserts.append(["assert", e.args, e.gate, e.gens, e])
            elif e.kind == "len":
                self.reads.append(["len", e.args, e.gate, e.gens, e])
            elif e.kind == "call" and not any(r is not None for r in (e.roots or ())) and e.args:
                self.reads.append([e.name, e.args, e.gate, e.gens, e])
            if e.kind == "again":
                wh, ms, inner = e.extra
                if wh or any(x.kind == "write" or x.kind == "call" and any(r is not None for r in (x.roots or ())) and x.name.split("::")[-1].split(":")[-1] not in NOISE for x in inner):
                    eff.append(["again", e.args, e.gate, e.gens, e])
            elif e.kind == "call" and e.name.startswith("iter:") and e.name[5:] in ORDER:
                eff.append([e.name[5:], e.args, e.gate, e.gens, e])
            elif e.kind == "write":
                eff.append(["write", e.args, e.gate, e.gens, e])
            elif e.kind == "call" and e.name.split("::")[-1].split(":")[-1] not in NOISE:
                mut = any(r is not None for r in (e.roots or ()))
                if mut or e.name == "apply" or e.name in ("retain",) or e.name.split("::")[-1] in OUTSIDE or e.name == "Gauge::set":
                    eff.append([e.name, e.args, e.gate, e.gens, e])
                elif e.name == "write" and len(e.args) == 2:
                    eff.append(["write_file", e.args, e.gate, e.gens, e])
        self.ret = ret
        self.eff = eff
        self.contents()
        self.munorm()
        self.apply(Canon())
        for name in ("eff", "asserts", "reads"):
            setattr(self, name, [g for f in getattr(self, name) for g in unchain(f)])
        self.finish()

    def allterms(self):
        out = set()
        if self.ret is not None:
            walk(self.ret, out)
        for n, a, g, gs, e in self.eff:
            for x in a:
                walk(x, out)
            walk(gs, out)
            walk(B(g), out)
        for m, (i, vs, gs, g0) in self.mus.items():
            if m in out:
                walk(i, out)
                walk(gs, out)
                for c, v in vs:
                    walk(v, out)
                    walk(B(c), out)
        return out

    def apply(self, rw):
        if self.ret is not None:
            self.ret = rw.t(self.ret)
        new = []
        for name in ("eff", "asserts", "reads"):
            new = []
            for n, a, g, gs, e in getattr(self, name):
                gs2, c = rw.gens(gs)
                new.append([n, tuple(rw.t(x) for x in a), AND(rw.b(g), c), gs2, e])
            setattr(self, name, new)
        mus = {}
        for m, (i, vs, gs, g0) in self.mus.items():
            gs2, c = rw.gens(gs)
            m2 = rw.t(m)
            mus[m2] = (rw.t(i), tuple((AND(rw.b(cc), c), rw.t(v)) for cc, v in vs), gs2, rw.b(g0))
        self.mus = mus

    # local collections that are only added to become comprehensions
    def contents(self):
        for _ in range(6):
            created = {}
            for e in self.events:
                if e.kind == "call" and e.name.split("::")[-1] in FRESH and e.res is not None and e.res.op == "call" and len(e.res.a) > 2 \
                        and e.res.a[2] is not None and e.res not in created:
                    created[e.res] = e
            done = False
            for o, ce in created.items():
                mine = [f for f in self.eff if o in f[1][:1] or any(o is x for x in f[1])]
                init = list(o.a[1][0].a[2]) if o.a[0] == "vecof" else []
                if not mine and o.a[0] == "vecof":
                    self.apply(Rewrite(pre=lambda t, o=o: o.a[1][0] if t is o else None))
                    self.events = [e for e in self.events if e is not ce]
                    done = True
                    break
                if not mine:
                    # an object never changed: the empty collection
                    continue
                mine = [f for f in mine if f[0] not in ORDER]
                if not mine:
                    continue
                lastadd = max(self.idx[id(f[4])] for f in mine)
                if any(self.idx[id(f[4])] < lastadd and f[0] != "iter:rev" and any(o in walk(x) for x in f[1]) for f in self.reads):
                    continue
                if any(f[0].split("::")[-1] not in ADDERS or f[1][0] is not o or any(o in walk(x) for x in f[1][1:]) for f in mine):
                    continue
                parts, ok = [mk("comp", (), x, TRUE) for x in init], True
                pre = ce.gens or ()
                for f in mine:
                    n, a, g, gs, e = f
                    if gs[:len(pre)] != tuple(pre) or o in walk(B(g)) or o in walk(gs):
                        ok = False
                        break
                    rel = gs[len(pre):]
                    nm = n.split("::")[-1]
                    if nm in ("push", "push_back") or (nm == "insert" and len(a) == 2):
                        parts.append(mk("comp", rel, a[1], g))
                    elif nm == "insert" and len(a) == 3:
                        parts.append(mk("comp", rel, mk("agg", "tuple", "tuple", (a[1], a[2])), g))
                    elif nm in ("extend", "extend_from_slice"):
                        for q in comps(a[1]):
                            parts.append(mk("comp", rel + q.a[0], q.a[1], AND(g, q.a[2])))
                    else:
                        ok = False
                if not ok:
                    continue
                # the object must not be reached through other impure calls or writes
                col = under(ce.gate, mk("collect", parts[0] if len(parts) == 1 else mk("chain", tuple(parts))))
                self.eff = [f for f in self.eff if f not in mine]
                rw = Rewrite(pre=lambda t, o=o, col=col: col if t is o else None)
                self.apply(rw)
                self.events = [e for e in self.events if e is not ce]
                done = True
                break
            if not done:
                break

    # loop variables become structural recursions
    def munorm(self):
        stack = []

        def pre(t):
            if t.op == "mu":
                if t in stack:
                    return mk("self", len(stack) - stack.index(t))
                d = self.mus.get(t)
                if d is None:
                    return mk("muraw", rw.t(t.a[2]) if len(t.a) > 2 and isinstance(t.a[2], T) else mk("none"))
                init, vs, gs, g0 = d
                r = self.mupattern(t, init, vs, gs)
                saved = rw.memo, rw.bmemo
                stack.append(t)
                if r is not None and t not in walk(r):
                    rw.memo, rw.bmemo = {}, {}
                    r = rw.t(r)
                    rw.memo, rw.bmemo = saved
                    if not any(x.op == "self" for x in walk(r)):
                        stack.pop()
                        if r.op != "b" and g0 != TRUE:
                            r = under(rw.b(g0), r)
                        return r
                rw.memo, rw.bmemo = {}, {}
                try:
                    i2 = rw.t(init)
                    gs2, c = rw.gens(gs)
                    care = OR(*[cc for cc, _ in vs])
                    nx = cases([(rw.b(cc), rw.t(v)) for cc, v in vs])
                finally:
                    rw.memo, rw.bmemo = saved
                    stack.pop()
                return under(rw.b(g0), mk("rec", i2, nx, gs2))
            if t.op == "while":
                return mk("while")
            if t.op == "call" and len(t.a) > 2 and t.a[0] == "fold" and t.a[1][0].op == "comp" and t.a[1][2].op == "lambda":
                c, init, lam = t.a[1]
                acc = mk("acc", c)
                m = mk("mu", "fold", "acc", c, lam)
                sub = Rewrite(pre=lambda x: m if x is acc else None)
                body = sub.t(lam.a[0])
                if m not in self.mus:
                    self.mus[m] = (init, ((c.a[2], body), (NOT(c.a[2]), m)), c.a[0], TRUE)
                return rw.t(m)
            if t.op == "call" and t.a[0] == "count" and t.a[1][0].op in ("comp", "chain"):
                n = nlen(mk("collect", t.a[1][0]))
                if n.op != "len":
                    return rw.t(n)
                return mk("len", rw.t(n.a[0]))
            return None
        rw = Rewrite(pre=pre, post=strip)
        self.apply(rw)

    def mupattern(self, m, init, vs, gs):
        if init is FF or init is TT:
            nb = FALSE
            for c, v in vs:
                nb = OR(nb, AND(c, var(m) if v is m else tob(v)))
            care = OR(*[c for c, _ in vs])
            if init is FF:
                p = restrict(nb, m, False)
                hi = restrict(nb, m, True)
                if m not in support(p) and not any(m in walk(a) for a in support(p)) and (hi == care or hi == AND(care, hi) == care):
                    return B(mkex(gs, p))
            else:
                p = AND(care, NOT(restrict(nb, m, True)))
                if restrict(nb, m, False) == FALSE and not any(m in walk(a) for a in support(p)):
                    return B(NOT(mkex(gs, p)))
            return None
        # extrema
        if len(vs) == 1 and vs[0][1].op == "call" and vs[0][1].a[0] in ("max", "min") and len(vs[0][1].a[1]) == 2 and m in vs[0][1].a[1]:
            (c, v), = vs
            d = [q for q in v.a[1] if q is not m]
            if len(d) == 1 and m not in walk(d[0]) and not any(m in walk(q) for q in support(c)):
                return extremum(v.a[0], (mk("comp", gs, d[0], c), mk("comp", (), init, TRUE)))
        # sums
        parts = []
        for c, v in vs:
            for cc, l in leaves(v):
                d = add(l, m, -1)
                if m in walk(d):
                    return None
                if d is const(0):
                    continue
                parts.append((AND(c, cc), d))
        if not parts:
            return init
        if init.op == "call" and not init.a[1] and init.a[0].split("::")[-1] == "zero":
            init = const(0)
        if not (init.op in ("const", "lin") and isinstance(init.a[0], int)):
            return None
        c = OR(*[c for c, _ in parts])
        d = parts[0][1] if len(parts) == 1 else cases(parts)
        return add(init, mk("call", "sum", (mk("comp", gs, d, c),), None))

    def finish(self):
        """Keep what is observable, relativise to its own condition."""
        # reachability of local objects
        def robj(x):
            while x.op in ("field", "as", "idx", "upd"):
                x = x.a[0]
            return x
        keep = []
        rest = []
        for f in self.eff:
            n, a, g, gs, e = f
            glob = False
            if n == "write":
                r = e.roots[0]
                glob = True
            else:
                glob = any(r is not None and r[0][0] == "P" for r in (e.roots or ())) or n in ("apply", "again") or n in ORDER or n.split("::")[-1] in OUTSIDE or n == "Gauge::set"
            (keep if glob else rest).append(f)
        seen = set()
        if self.ret is not None:
            walk(self.ret, seen)
        for f in keep:
            for x in f[1] + f[3] + (B(f[2]),):
                walk(x, seen)
        ch = True
        while ch:
            ch = False
            for f in list(rest):
                recv = [x for x, r in zip(f[1], f[4].roots or ()) if r is not None] or list(f[1][:1])
                if any(robj(x) in seen and robj(x).op not in ("const",) or has_obj(x, seen) or robj(x).op == "collect" for x in recv):
                    rest.remove(f)
                    keep.append(f)
                    for x in f[1] + f[3] + (B(f[2]),):
                        walk(x, seen)
                    ch = True
        effs = []
        self.order = []
        used = set()
        if self.ret is not None:
            walk(self.ret, used)
        for f in keep:
            if f[0] != "apply":
                for x in f[1] + f[3] + (B(f[2]),):
                    walk(x, used)
        for n, a, g, gs, e in keep:
            if n == "apply" and mk("call", "apply", a, None) in used:
                continue
            if n == "write" and len(a) == 2 and a[0] is a[1]:
                continue
            if g == FALSE:
                continue
            n0 = n.split("::")[-1]
            self.order.append((n, a, g, gs, e))
            if n0 in ("push", "push_back", "insert") and len(a) == 2:
                n, a = "add", a
            elif n0 == "insert" and len(a) == 3:
                n, a = "add", (a[0], mk("agg", "tuple", "tuple", a[1:]))
            elif n0 in ("extend", "extend_from_slice") and len(a) == 2:
                for q in comps(a[1]):
                    effs.append(eff("add", (a[0], q.a[1]), AND(g, q.a[2]), gs + q.a[0]))
                continue
            # x = x.filter(p).collect()  is  x.retain(p)
            if n == "write" and a[1].op == "collect" and a[1].a[0].op == "comp" and a[1].a[0].a[0] == (a[0],) and a[1].a[0].a[1] is mk("elem", a[0]):
                n, a = "retain", (a[0], B(a[1].a[0].a[2]))
            effs.append(eff(n.split("::")[-1] if n != "write" else n, a, g, gs))
        asserts = []
        for n, a, g, gs, e in self.asserts:
            bad = AND(g, NOT(tob(a[0])))
            if bad == FALSE:
                continue
            asserts.append(mk("assert", B(mkex(gs, bad)) if gs else B(bad)))
        self.raw = [self.ret if self.ret is not None else mk("none")] + effs + asserts + self.orders(keep)
        self.ret, self.effects, self.asserts_n, self.orders_n = normal(self.raw)
        self.wheres = {}
        for f in keep:
            self.wheres.setdefault(f[0].split("::")[-1], []).append((f[4].fn, f[4].line))


    def orders(self, keep):
        """Pairs (first, second): an access of an object before a change of it, or a
        change before another access, in program order."""
        ms = []
        for n, a, g, gs, e in keep:
            if n in ("apply", "again") or n in ORDER and not any(e.roots or ()):
                continue
            objs = [x for x, r in zip(a, e.roots or ()) if r is not None]
            if objs:
                ms.append((n.split("::")[-1], a, g, gs, e, objs))
        rs = []
        for n, a, g, gs, e in self.reads:
            if n.split("::")[-1] in NOISE:
                continue
            refs = getattr(e, "refs", None)
            by = tuple(x for i, x in enumerate(a) if n == "len" or (refs and i < len(refs) and refs[i]))
            if by:
                rs.append((n.split("::")[-1], by, g, gs, e, ()))
        out = set()
        if len(ms) * (len(ms) + len(rs)) > 6000:
            return []
        sig = lambda m: mk("sig", "write" if m[0] == "write" else "add" if m[0] in ADDERS else m[0], m[1])
        w = {}

        def sub(m):
            if id(m) not in w:
                z = set()
                for x in m[1]:
                    walk(x, z)
                w[id(m)] = z
            return w[id(m)]
        for m in ms:
            for o in m[5]:
                if o.op in ("const", "agg", "b", "lin"):
                    continue
                for q in (ms + rs if m[0] != "write" else ms):
                    if q is m or q[4] is m[4]:
                        continue
                    if m[0] == "write" and q[0] != "write" and not any(o in walk(x) or x in walk(o) for x in q[5]):
                        continue        # what is written is known: later values show it
                    if not (o in sub(q) or any(x in walk(o) for x in q[1] if x.op in ("param", "field", "call"))):
                        continue
                    if AND(m[2], q[2]) == FALSE:
                        continue
                    if m[0] in RETAINS and q[0] in RETAINS and m[0] != q[0]:
                        continue        # filters of different item lists commute
                    if hosts(m[1]) != hosts(q[1]):
                        continue        # one runs inside a callee: that callee's own place in the order decides
                    i, j = self.idx[id(m[4])], self.idx[id(q[4])]
                    s0, s1 = sig(m), sig(q)
                    if s0 is s1:
                        continue
                    out.add(mk("order", s0, s1) if i < j else mk("order", s1, s0))
        return sorted(out, key=lambda t: t.id)


def unchain(f, depth=0):
    """A loop over concatenated sequences is one loop per sequence."""
    n, a, g, gs, e = f
    if any(h.op == "once" for h in gs):
        gs = tuple(h for h in gs if h.op != "once")
        f = [n, a, g, gs, e]
    for k, h in enumerate(gs):
        c = h.a[0] if h.op == "collect" and len(h.a) == 1 else h
        if c.op != "chain" or depth > 3 or not all(q.op == "comp" for q in c.a[0]):
            continue
        seen = set()
        for x in a + gs[k + 1:] + (B(g),):
            walk(x, seen)
        if any(x.op == "index" and x.a[0].op == "comp" and h in x.a[0].a[0] for x in seen):
            continue
        el = mk("elem", h)
        out = []
        for q in c.a[0]:
            rw = Rewrite(pre=lambda t, q=q: q.a[1] if t is el else None)
            gs2, cc = rw.gens(gs[k + 1:])
            g2 = AND(rw.b(g), q.a[2], cc)
            if g2 == FALSE:
                continue
            a2 = tuple(rw.t(x) for x in a)
            new = set()
            for x in a2 + gs2 + (B(g2),):
                walk(x, new)
            if any(x.op == "acc" or x.op == "undef" and x not in seen for x in new):
                return [f]
            out += unchain([n, a2, g2, gs[:k] + q.a[0] + gs2, e], depth + 1)
        return out
    return [f]


RETAINS = {"retain_algebraic_constraints", "retain_bus_interactions", "retain_derived_variables"}


def hosts(a):
    """The opaque higher-order calls whose closure arguments occur in these terms."""
    return {x.a[0] for t in a for x in walk(t) if x.op == "hoarg"}


def eff(n, a, g, gs):
    """An effect on the element found by a search is the effect in the loop that
    searches: bind the free elements."""
    for _ in range(4):
        free = set()
        bound = set(gs)
        for x in a:
            free_elems(x, bound, free)
        hit = None
        for at in support(g):
            if at.op == "exists" and at.a[0][0] in free and restrict(g, at, False) == FALSE:
                hit = at
                break
        if hit is None:
            break
        g = AND(restrict(g, hit, True), hit.a[1])
        gs = gs + hit.a[0]
    return mk("eff", n, a, B(g), gs)


def free_elems(t, bound, out):
    """Generators whose elements occur in t without being bound in it."""
    seen = set()
    st = [(t, bound)]
    while st:
        x, b = st.pop()
        if isinstance(x, tuple):
            st.extend((y, b) for y in x)
            continue
        if not isinstance(x, T) or (x, len(b)) in seen:
            continue
        seen.add((x, len(b)))
        if x.op == "elem":
            if x.a[0] not in b:
                out.add(x.a[0])
            st.append((x.a[0], b))
        elif x.op in ("comp", "exists", "such"):
            gs = x.a[1] if x.op == "such" else x.a[0]
            b2 = b | set(gs)
            for g in gs:
                st.append((g, b2))
            if x.op != "exists":
                st.append((x.a[1] if x.op == "comp" else x.a[0], b2))
        elif x.op == "b":
            pass
        elif x.op == "cases":
            st.extend((l, b) for _, l in x.a[0])
        else:
            st.extend((y, b) for y in x.a)


def normal(raw):
    """Conditions relative to their context, in this process's atom order."""
    effs = frozenset(mk("eff", t.a[0], tuple(relativise(x, tob(t.a[2])) for x in t.a[1]), relativise(t.a[2], TRUE),
                        relx(t.a[3], TRUE)) for t in raw[1:] if t.op == "eff")
    asserts = frozenset(relativise(t, TRUE) for t in raw[1:] if t.op == "assert")
    orders = frozenset(relativise(t, TRUE) for t in raw[1:] if t.op == "order")
    return relativise(raw[0], TRUE), effs, asserts, orders


def has_obj(x, seen):
    return False


def comps(c):
    if c.op == "chain":
        return [q for y in c.a[0] for q in comps(y)]
    if c.op == "comp":
        return [c]
    if c.op == "collect":
        return comps(c.a[0])
    return [mk("comp", (c,), mk("elem", c), TRUE)]


def strip(t):
    """Drop creation sites, closure paths."""
    if t.op == "call" and not t.a[1] and str(t.a[0]).split("::")[-1] == "default" and (t.a[0] == "Default::default" or t.a[2] is not None):
        return mk("call", "default", (), None)
    if t.op == "call" and len(t.a) > 2 and t.a[2] is not None:
        return mk("call", t.a[0], t.a[1], "*")
    if t.op == "such":
        return t.a[0]
    if t.op == "param" and t.a[1] is not None:
        return mk("param", t.a[0], None)
    return None


_rel = {}


def relativise(t, care):
    """Drop from conditions inside t what `care` already says."""
    k = (t, care)
    r = _rel.get(k)
    if r is None:
        r = _relt(t, care)
        _rel[k] = r
    return r


_thm = {}


def _range(a):
    """An atom that says where one quantity lies: (quantity, kind, bound)."""
    if a.op == "eq":
        for x, y in (a.a, a.a[::-1]):
            if y.op == "const" and isinstance(y.a[0], str):
                return x, "s", y.a[0]
    if a.op == "is":
        return a.a[0], "s", a.a[1]
    if a.op in ("eq0", "ge0"):
        c, m = lin_parts(a.a[0])
        if not m:
            return None
        lead = min(m, key=lambda x: x.id)
        sg = -1 if m[lead] < 0 else 1
        k = (mklin(0, {x: sg * v for x, v in m.items()}))
        # sg * k + c >= 0
        return (k, "=", -c * sg) if a.op == "eq0" else (k, ">=", -c) if sg > 0 else (k, "<=", c)
    return None


def theory(atoms):
    """What holds between atoms about the same quantity, whatever it is."""
    by = {}
    for a in atoms:
        r = _range(a)
        if r is not None:
            by.setdefault(r[0], []).append((r[1], r[2], var(a)))
    th = TRUE
    for l in by.values():
        if not 1 < len(l) <= 8:
            continue
        for i, (k1, v1, a1) in enumerate(l):
            for k2, v2, a2 in l[:i]:
                if k1 == "s":
                    th = AND(th, NOT(AND(a1, a2)))
                    continue
                pts = sorted({v1 - 1, v1, v1 + 1, v2 - 1, v2, v2 + 1})
                ok = lambda k, v, x: x == v if k == "=" else x >= v if k == ">=" else x <= v
                poss = {(ok(k1, v1, x), ok(k2, v2, x)) for x in pts}
                th = AND(th, OR(*[AND(a1 if p else NOT(a1), a2 if q else NOT(a2)) for p, q in poss]))
    return th


def tight(f):
    """f without the atoms that facts about the same quantity make superfluous."""
    r = _thm.get(f)
    if r is not None:
        return r
    f0, sup = f, support(f)
    if 1 < len(sup) <= 24:
        th = theory(sup)
        if th != TRUE:
            for a in sorted((a for a in sup if _range(a)), key=lambda a: pp(a)):
                p = AND(f, th)
                g = OR(restrict(p, a, False), restrict(p, a, True))
                if AND(g, th) == p:
                    f = g
                    th = theory(support(f))
            if th != TRUE and f > 1:
                f = constrain(f, th)
    _thm[f0] = f
    return f


def _relb(f, care):
    if f <= 1 or care == FALSE:
        return f
    f = constrain(f, care)
    if f <= 1:
        return f
    f = tight(f)
    if f <= 1:
        return f
    atoms = support(f)
    isv = [v for v in atoms if v.op == "is"] if len(atoms) > 1 else []
    if not isv:
        return subst_atoms(f, lambda a: tob(relativise(a, care)))
    # an atom only matters where the variant tests leave f depending on it
    sup = [(v, support(restrict(f, v, False)), support(restrict(f, v, True))) for v in isv]

    def go(a):
        c = care
        if a.op != "is":
            for v, s0, s1 in sup:
                if a not in s0:
                    c = AND(c, var(v))
                elif a not in s1:
                    c = AND(c, NOT(var(v)))
            if c == FALSE:
                c = care
        return tob(relativise(a, c))
    return subst_atoms(f, go)


def _relt(t, care):
    o, a = t.op, t.a
    if not a:
        return t
    if o == "b":
        return B(_relb(a[0], care))
    if o == "cases":
        out = []
        nev = OR(*[c for c, l in a[0] if l.op == "never"])
        if nev != FALSE and AND(care, NOT(nev)) != FALSE:
            care = AND(care, NOT(nev))      # the value where there is one
        for c, l in fieldwise([(c, l) for c, l in a[0] if AND(c, care) != FALSE]):
            out.append((_relb(c, care), relativise(l, AND(care, c))))
        return minmax(cases(out))
    if o == "comp":
        return mk("comp", relx(a[0], care), relativise(a[1], AND(care, a[2])), _relb(a[2], care))
    if o == "exists":
        return B(mkex(relx(a[0], care), _relb(a[1], care)))
    if o == "such":
        return mk("such", relativise(a[0], AND(care, a[2])), relx(a[1], care), _relb(a[2], care))
    if o == "under":
        return relativise(a[1], AND(care, tob(a[0])))
    if o in ("ge0", "eq0") and a[0].op == "lin":
        # a set against a list of its own elements
        ls = {x for x, _ in a[0].a[1] if x.op == "len" and x.a[0].op == "setof"}
        for x in ls:
            y = nlen(x.a[0].a[0])
            if y in [z for z, _ in a[0].a[1]]:
                return relativise(Rewrite(pre=lambda z: y if z is x else None).t(t), care)
    if o in ("lin", "mul", "ge0", "eq0", "eq", "lt"):
        return spread(Rewrite(pre=lambda x: None if x is t else relativise(x, care))._t(t))
    if o in ("const", "param", "fnval"):
        return t
    if o == "collect" and len(a) == 1 and a[0].op == "chain" and len(a[0].a[0]) > 1 and all(
            q.op == "comp" and not q.a[0] and q.a[2] == TRUE for q in a[0].a[0]):
        return mk("agg", "array", "array", tuple(relativise(q.a[1], care) for q in a[0].a[0]))
    if o == "collect" and len(a) == 1 and a[0].op == "chain" and all(q.op == "comp" and not q.a[0] for q in a[0].a[0]):
        # a list of a few items some of which are there under a condition
        alts = [(TRUE, ())]
        for q in a[0].a[0]:
            c = constrain(q.a[2], care) if care != FALSE else q.a[2]
            alts = [(AND(g, c), l + (q.a[1],)) for g, l in alts] + ([(AND(g, NOT(c)), l) for g, l in alts] if c != TRUE else [])
        alts = [(g, l) for g, l in alts if g != FALSE]
        if len(alts) <= 6:
            return relativise(cases([(g, mk("agg", "array", "array", l)) for g, l in alts]), care)
    if o == "call":
        r = commut(mk(o, *relx(a, care)))
        # f(case{c -> a; d -> b})  is  case{c -> f(a); d -> f(b)}
        cs = [x for x in r.a[1] if isinstance(x, T) and x.op == "cases"] if r.op == "call" and isinstance(r.a[1], tuple) else []
        if len(cs) == 1 and len(cs[0].a[0]) <= 4:
            return cases([(c, mk("call", r.a[0], tuple(l if x is cs[0] else x for x in r.a[1]), *r.a[2:])) for c, l in cs[0].a[0]])
        return r
    if o == "op":
        return commut(mk(o, *relx(a, care)))
    return mk(o, *relx(a, care))


def fieldwise(lst):
    """case{c -> K(x, y); d -> K(z, y)}  is  case{c or d -> K(case{c -> x; d -> z}, y)}"""
    by = {}
    for c, l in lst:
        k = (l.a[0], l.a[1], len(l.a[2])) + l.a[3:] if l.op == "agg" and l.a[2] else l
        by.setdefault(k, []).append((c, l))
    for ls in by.values():
        if len(ls) == 1:
            yield ls[0]
        else:
            l0 = ls[0][1]
            vs = tuple(cases([(c, l.a[2][i]) for c, l in ls]) for i in range(len(l0.a[2])))
            yield OR(*[c for c, _ in ls]), mk("agg", l0.a[0], l0.a[1], vs, *l0.a[3:])


def spread(t):
    """k + case{c -> a; d -> b}  is  case{c -> k + a; d -> k + b}"""
    if t.op == "lin":
        cs = [(x, k) for x, k in t.a[1] if x.op == "cases"]
        if len(cs) == 1 and len(cs[0][0].a[0]) <= 4:
            x, k = cs[0]
            rest = add(t, mul(const(k), x), -1)
            return cases([(c, add(rest, mul(const(k), l))) for c, l in x.a[0]])
    return t


def relx(x, care):
    if isinstance(x, T):
        return relativise(x, care)
    if isinstance(x, tuple):
        return tuple(relx(y, care) for y in x)
    return x


# ------------------------------------------------------------------ storage
def dump(terms):
    """terms -> JSON-able list of nodes; children before parents."""
    nodes, idx = [], {}
    bidx = {}

    def tt(t):
        i = idx.get(t)
        if i is None:
            rec = [t.op] + [enc(t.op, j, x) for j, x in enumerate(t.a)]
            i = len(nodes)
            nodes.append(rec)
            idx[t] = i
        return i

    def bb(f):
        if f <= 1:
            return f
        i = bidx.get(f)
        if i is None:
            v, lo, hi = TM._nodes[f]
            rec = ["#", tt(TM._vars[v]), bb(lo), bb(hi)]
            i = len(nodes) + 2
            nodes.append(rec)
            bidx[f] = i
        return i

    BPOS = {("b", 0), ("exists", 1), ("comp", 2), ("such", 2)}

    def enc(op, j, x):
        if (op, j) in BPOS:
            return {"b": bb(x)}
        if op == "cases" and j == 0:
            return {"cs": [[bb(c), tt(l)] for c, l in x]}
        if isinstance(x, T):
            return {"t": tt(x)}
        if isinstance(x, tuple):
            return {"l": [enc("", 0, y) for y in x]}
        if x is None or isinstance(x, (int, str)):
            return {"v": x}
        return {"v": "?"}
    roots = [tt(t) for t in terms]
    return {"nodes": nodes, "roots": roots}


def load(d):
    raw = d["nodes"]
    vals = []

    def bget(i):
        return i if i <= 1 else vals[i - 2]

    def dec(x):
        if "b" in x:
            return bget(x["b"])
        if "cs" in x:
            return tuple((bget(c), vals[l]) for c, l in x["cs"])
        if "t" in x:
            return vals[x["t"]]
        if "l" in x:
            return tuple(dec(y) for y in x["l"])
        return x["v"]
    ident = Rewrite()
    for r in raw:
        if r[0] == "#":
            a = vals[r[1]]
            if not isinstance(a, T):
                a = B(a)
            vals.append(ite(tob(a), bget(r[3]), bget(r[2])))
            continue
        args = [dec(x) for x in r[1:]]
        args = [fix(x) for x in args]
        t = mk(r[0], *args)
        # through the smart constructors: orientation depends on this process
        ident.memo = {x: x for x in kids(t)}
        ident.bmemo = {}
        if r[0] in ("lin", "mul", "ge0", "eq0", "eq", "lt", "cases", "exists", "set", "objsig", "op", "call"):
            t = shallow(t)
        vals.append(t)
    return [vals[i] for i in d["roots"]]


def fix(x):
    return x


def kids(t):
    return [x for x in t.a if isinstance(x, T)]


def shallow(t):
    o, a = t.op, t.a
    if o == "lin":
        r = const(a[0])
        for x, k in a[1]:
            r = add(r, mul(const(k), x))
        return r
    if o == "mul":
        r = const(1)
        for x in a[0]:
            r = mul(r, x)
        return r
    if o == "ge0":
        return B(ge0(a[0]))
    if o == "lt":
        return B(olt(a[0], a[1]))
    if o == "eq0":
        return B(eq0(a[0]))
    if o == "eq":
        return B(eq(a[0], a[1]))
    if o in ("op", "call"):
        return commut(t)
    if o == "cases":
        return minmax(cases(list(a[0])))
    if o == "exists":
        return B(mkex(a[0], a[1]))
    if o in ("set", "objsig"):
        return mkset(o, a[0])
    return t
