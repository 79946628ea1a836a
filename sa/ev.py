"""Gated value analysis of MIR.

A forward dataflow over the control-flow graph of one function (closures and
helpers inlined).  Values are hash-consed normal-form terms, block conditions are
BDDs over opaque atoms, loops are cut at their back edges (variables changed in
the loop become opaque `mu` terms), iterator chains and `for` loops normalise to
the same comprehension terms.  Nothing is executed and no path is enumerated.
"""
import re
from term import *
from prog import last, STD


WIDTH = {"u8": (0, 8), "u16": (0, 16), "u32": (0, 32), "u64": (0, 64), "usize": (0, 64), "u128": (0, 128),
         "i8": (1, 8), "i16": (1, 16), "i32": (1, 32), "i64": (1, 64), "isize": (1, 64), "i128": (1, 128),
         "bool": (0, 1), "char": (0, 32)}


def accessor(b):
    """Only projects its parameters: `fn range(&self) -> (T, T) { (self.min, self.max) }`."""
    r = getattr(b, "_acc", None)
    if r is None:
        r = not b.trait and not getattr(b, "trait_default", None) and b.kind != "Closure" and len(b.blocks) == 1 and \
            all(s[1][0] in ("use", "ref", "agg", "copy_deref", "copyforderef") for s in b.blocks[0]["s"])
        b._acc = r
    return r


class Event:
    __slots__ = ("kind", "gate", "gens", "name", "args", "roots", "res", "fn", "line", "site", "extra", "stack", "block", "refs")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    def __repr__(self):
        g = "" if not self.gens else " for " + ", ".join(pp(x) for x in self.gens)
        return f"[{self.kind}] {self.name}({', '.join(pp(a) for a in self.args)}) if {ppb(self.gate)}{g}"


class Budget(Exception):
    pass


TRANSPARENT = {
    "clone", "cloned", "copied", "as_ref", "as_mut", "deref", "deref_mut", "borrow", "borrow_mut", "to_owned",
    "as_slice", "as_deref", "to_vec", "into_vec", "into_boxed_slice", "as_mut_slice", "as_str", "by_ref", "as_deref_mut",
    "into_inner", "as_bytes",
}
ITER_SRC = {"iter", "into_iter", "iter_mut", "into_par_iter", "par_iter", "values", "into_values", "values_mut", "keys",
            "into_keys", "drain", "chars", "bytes", "into_sorted"}


def uninit(t):
    while t.op in ("field", "as", "cast", "sited"):
        t = t.a[0]
    return t.op == "call" and t.a[0].split("::")[-1] == "new_uninit"


class Ev:
    def __init__(self, prog, inline=None, opaque=(), known=None, maxdepth=8, inline_all=False, budget=600000, private=False):
        self.private = private
        self.p = prog
        self.inline = inline or set()
        self.inline_all = inline_all
        self.opaque = set(opaque)
        self.known = known          # baseline function keys: anything else is inlined
        self.maxdepth = maxdepth
        self.opts = set()
        self.fsig = {}
        self.events = []
        self.recording = True
        self.fid = 0
        self.stack = []
        self.mus = {}
        self.site = 0
        self.analysed = set()
        self.budget = budget
        self.cache_loops = {}
        self.gens = ()
        self.frames = {}
        self.pure_cache = {}

    # ------------------------------------------------------------ entry
    def function(self, body, args=None):
        """Evaluate a function with symbolic parameters; returns (ret term)."""
        st = {}
        a = []
        for i in range(1, body.nargs + 1):
            loc = body.locals[i]
            nm = loc[1] if len(loc) > 1 else None
            if body.kind == "Closure" and i == 1:
                nm = "env"
            t = mk("param", i, nm) if args is None or args[i - 1] is None else args[i - 1]
            if body.ty(loc[0])["k"] == "ref" and body.ty(loc[0]).get("mut"):
                st[("P", t)] = t
                t = mk("mref", ("P", t), ())
            a.append(t)
        self.state = st
        self.final = None
        ret, st2 = self.run(body, a, st, TRUE)
        self.final = st2
        ret = self.resolve(ret, st2) if ret is not None else None
        return self.residual(body, ret, st2)

    def residual(self, body, ret, st):
        """Function values still inside terms (boxed, stored) are described by their
        behaviour on opaque arguments."""
        done = {}
        for rnd in range(4):
            ts = set()
            if ret is not None:
                walk(ret, ts)
            for e in self.events:
                for x in e.args:
                    walk(x, ts)
                walk(B(e.gate), ts)
                for x in e.gens:
                    walk(x, ts)
            new = [t for t in ts if t.op == "closure" and t not in done]
            if not new:
                break
            for t in sorted(new, key=lambda t: t.id):
                self.stack = [body.id]
                try:
                    done[t] = self.lam(body, st, t, "fn", (), TRUE)[0]
                except Budget:
                    done[t] = t
        if done:
            from summ import Rewrite
            rw = Rewrite(pre=lambda t: rw.t(done[t]) if t in done and done[t] is not t else None)
            ret = rw.t(ret) if ret is not None else None
            for e in self.events:
                e.args = tuple(rw.t(x) for x in e.args)
                e.gate = rw.b(e.gate)
                e.gens = tuple(rw.t(x) for x in e.gens)
            self.mus = {rw.t(m): (rw.t(i), tuple((rw.b(c), rw.t(v)) for c, v in vs), tuple(rw.t(x) for x in gs), rw.b(g0)) for m, (i, vs, gs, g0) in self.mus.items()}
        return ret

    def resolve(self, t, st):
        if t.op == "mref":
            return self.read(st, t.a[0], t.a[1])
        return t

    # ------------------------------------------------------------ store
    def read(self, st, root, path):
        v = st.get(root)
        if v is None:
            v = root[1] if root[0] == "P" else mk("undef")
        for i, f in enumerate(path):
            if v.op == "mref":
                # pointer stored inside: follow
                return self.read(st, v.a[0], v.a[1] + tuple(path[i:]))
            v = proj(v, f)
        return v

    def write(self, st, root, path, val):
        old = st.get(root)
        if old is None:
            old = root[1] if root[0] == "P" else mk("undef")
        st[root] = upd(old, path, val)

    # place -> (root, path); derefs follow mrefs
    def place(self, body, fid, st, p):
        root, path = (fid, p["l"]), ()
        for e in p["p"]:
            k = e[0]
            if k == "*":
                v = self.read(st, root, path)
                if v.op == "mref":
                    root, path = v.a[0], v.a[1]
                elif v.op == "cases" and any(l.op == "mref" for _, l in v.a[0]):
                    v = mapcases(v, lambda l: self.read(st, l.a[0], l.a[1]) if l.op == "mref" else l)
                    root, path = ("P", v), ()
                elif root[0] == "P" and path == () and root[1] is v:
                    pass
                else:
                    root, path = ("P", v), ()
            elif k == ".":
                path = path + ((".", e[1], last(e[2])),)
            elif k == "as":
                path = path + (("as", e[1]),)
            elif k == "[]":
                i = self.read(st, (fid, e[1]), ())
                path = path + (("[]", i),)
            elif k == "[c]":
                path = path + (("[]", const(e[1]) if not e[2] else mk("fromend", e[1])),)
            elif k == "[s]":
                path = path + (("[s]", e[1], e[2], e[3]),)
            else:
                path = path + (("?",),)
        return root, path

    def operand(self, body, fid, st, o):
        if "cp" in o or "mv" in o:
            r, p = self.place(body, fid, st, o.get("cp") or o.get("mv"))
            return self.read(st, r, p)
        if "fn" in o:
            f = o["fn"]
            return mk("fnval", self.cname(body, f), f.get("res") or f["def"], body.crate, _hold(f))
        if "c" in o:
            c = o["c"]
            if "promoted" in c:
                pid = f"{c['of']}#promoted{c['promoted']}"
                pb = self.p.bodies.get(pid)
                if pb is not None:
                    k = ("prom", pid)
                    if k not in self.pure_cache:
                        s0 = {}
                        rec, self.recording = self.recording, False
                        r, s1 = self.run(pb, [], s0, TRUE)
                        self.recording = rec
                        self.pure_cache[k] = self.resolve(r, s1)
                    return self.pure_cache[k]
                return mk("promoted", pid)
            ty = body.ty(c["t"])
            if "v" in c:
                if ty["k"] == "bool":
                    return TT if c["v"] == "1" else FF
                return const(int(c["v"]))
            if "item" in c:
                nm = c["name"] if "name" in c else last(c["item"])
                if nm in ("ZERO",):
                    return const(0)
                if nm in ("ONE",):
                    return const(1)
                return mk("item", nm, ty["s"])
            s = c.get("s", "")
            if ty["k"] == "tuple" and not ty.get("args"):
                return mk("agg", "tuple", "tuple", ())
            # the number of an anonymous static depends on unrelated code
            return mk("const", re.sub(r"\balloc\d+\b", "alloc", s) if s else ty["s"])
        return mk("rt")

    # ------------------------------------------------------------ naming
    def cname(self, body, f):
        nm = f["name"]
        if f.get("trait"):
            return last(f["trait"]) + "::" + nm
        if "self" in f:
            t = body.ty(f["self"])
            while t["k"] == "ref":
                t = body.ty(t["args"][0])
            if f["def"].startswith(STD):
                return nm
            if t["k"] == "adt":
                return last(t["adt"]) + "::" + nm
            return nm
        return nm

    def target_body(self, f):
        for k in ("res", "def"):
            if k in f and f[k] in self.p.bodies:
                return self.p.bodies[f[k]]
        return None

    def should_inline(self, b, name):
        if len(self.stack) >= self.maxdepth:
            return False
        if b.id in self.stack:
            return False
        if b.self_adt == "Crepe" or b.name == "run_with_hasher":
            return False        # generated by the datalog macro; see rules.py
        if getattr(b, "derived", False):
            return False
        if b.key in self.opaque or b.name in self.opaque or name in self.opaque:
            return False
        if self.inline_all:
            return True
        if b.key in self.inline or b.name in self.inline:
            return True
        if self.known is not None:
            return b.key not in self.known or accessor(b) or b.name in ("is_zero", "is_one") and b.file.startswith("number/")
        if self.private and not getattr(b, "pub", True) and not b.trait and not getattr(b, "trait_default", None):
            return True
        return False

    # ------------------------------------------------------------ CFG
    def cfg(self, b):
        c = getattr(b, "_cfg", None)
        if c is not None:
            return c
        n = len(b.blocks)
        succ = [[] for _ in range(n)]
        for i, bl in enumerate(b.blocks):
            t = bl["t"]
            k = t[0]
            if k == "goto":
                succ[i] = [t[1]]
            elif k == "switch":
                succ[i] = [x[1] for x in t[2]] + [t[3]]
            elif k == "call":
                succ[i] = [t[4]] if t[4] is not None else []
            elif k == "drop":
                succ[i] = [t[2]]
            elif k == "assert":
                succ[i] = [t[3]]
            elif k == "asm":
                succ[i] = [t[1]]
        # blocks that can reach a return
        pred = [[] for _ in range(n)]
        for i in range(n):
            for s in succ[i]:
                pred[s].append(i)
        live = set()
        stk = [i for i in range(n) if b.blocks[i]["t"][0] == "return"]
        while stk:
            x = stk.pop()
            if x in live:
                continue
            live.add(x)
            stk += pred[x]
        noreturn = not live
        if noreturn:
            live = set(range(n))
        # RPO over live blocks from 0
        order, seen = [], set()

        def dfs(x):
            st = [(x, iter(succ[x]))]
            seen.add(x)
            while st:
                y, it = st[-1]
                for s in it:
                    if s in live and s not in seen:
                        seen.add(s)
                        st.append((s, iter(succ[s])))
                        break
                else:
                    order.append(y)
                    st.pop()
        dfs(0)
        order.reverse()
        pos = {x: i for i, x in enumerate(order)}
        # dominators to identify natural loops
        idom = {0: 0}
        changed = True
        preds = {x: [q for q in pred[x] if q in pos] for x in order}
        while changed:
            changed = False
            for x in order[1:]:
                ps = [q for q in preds[x] if q in idom]
                if not ps:
                    continue
                nw = ps[0]
                for q in ps[1:]:
                    a, c2 = nw, q
                    while a != c2:
                        while pos[a] > pos[c2]:
                            a = idom[a]
                        while pos[c2] > pos[a]:
                            c2 = idom[c2]
                    nw = a
                if idom.get(x) != nw:
                    idom[x] = nw
                    changed = True

        def dom(a, x):
            while True:
                if a == x:
                    return True
                if x == 0:
                    return False
                x = idom[x]
        loops = {}
        for x in order:
            for s in succ[x]:
                if s in pos and dom(s, x):
                    body = loops.setdefault(s, {s})
                    stk = [x]
                    while stk:
                        y = stk.pop()
                        if y in body:
                            continue
                        body.add(y)
                        stk += preds[y]
        c = dict(succ=succ, live=live, order=order, pos=pos, preds=preds, loops=loops, idom=idom, noreturn=noreturn)
        b._cfg = c
        return c

    # ------------------------------------------------------------ running a body
    def run(self, b, args, st, gate):
        """Evaluate body with argument terms in store st; returns (ret, store)."""
        self.budget -= len(b.blocks)
        if self.budget < 0:
            raise Budget(b.key)
        if b.id not in self.analysed:
            self.analysed.add(b.id)
        self.fid += 1
        fid = self.fid
        self.frames[fid] = b.id
        self.stack.append(b.id)
        if len(self.stack) > 1:
            # the loops of two inlined calls of one function are two loops
            self.fsig[fid] = "@" + ",".join("m" if any(y.op == "mref" for y in walk(a)) else str(a.id) for a in args)
        st = dict(st)
        for i, a in enumerate(args):
            st[(fid, i + 1)] = a
        c = self.cfg(b)
        inn = {0: [(gate, st)]}
        rets = []
        self.region(b, fid, c, [x for x in c["order"]], None, inn, rets, gate)
        self.stack.pop()
        if not rets:
            return mk("never"), st
        g, s = self.merge([(g, s) for g, s in rets])
        r = s.get((fid, 0), mk("undef"))
        # drop the frame
        s = {k: v for k, v in s.items() if k[0] != fid}
        return r, s

    def merge(self, ins):
        ins = [(g, s) for g, s in ins if g != FALSE] or ins[:1]
        if len(ins) == 1:
            return ins[0]
        g = OR(*[x[0] for x in ins])
        keys = {}
        for _, s in ins:
            for k in s:
                keys[k] = 1
        out = {}
        for k in keys:
            vals = []
            for gi, s in ins:
                v = s.get(k)
                if v is None:
                    if k[0] == "P":
                        v = k[1]
                    else:
                        continue
                vals.append((gi, v))
            first = vals[0][1]
            if all(v is first for _, v in vals):
                out[k] = first
                continue
            lst = vals
            # make disjoint
            res, used = [], FALSE
            for gi, v in lst:
                gi2 = AND(gi, NOT(used))
                used = OR(used, gi)
                res.append((gi2, v))
            if all(v.op in ("b",) for _, v in res):
                r = FALSE
                for gi, v in res:
                    r = OR(r, AND(gi, v.a[0]))
                out[k] = B(r)
            else:
                t = cases(res)
                out[k] = t
        return g, out

    def region(self, b, fid, c, order, loop, inn, rets, gate0):
        """Process blocks of `order`; `loop` is the header whose back edges are cut.
        Edges leaving the set are appended to inn (for the caller)."""
        oset = set(order)
        done = set()
        backs = []
        for x in order:
            if x in done:
                continue
            if x not in inn:
                continue
            if x in c["loops"] and x != loop:
                lb = c["loops"][x]
                lorder = [y for y in c["order"] if y in lb]
                self.loop(b, fid, c, x, lb, lorder, inn, rets)
                done |= lb
                continue
            done.add(x)
            g, st = self.merge(inn.pop(x))
            if g == FALSE:
                continue
            st = dict(st)
            for tgt, tg, ts in self.block(b, fid, c, x, g, st, rets):
                if tgt == loop:
                    backs.append((tg, ts))
                else:
                    inn.setdefault(tgt, []).append((tg, ts))
        return backs

    def loop(self, b, fid, c, h, lb, lorder, inn, rets):
        g0, s0 = self.merge(inn.pop(h))
        if g0 == FALSE:
            return
        lid = f"{b.key}:{sorted(c['loops']).index(h)}{self.fsig.get(fid, '')}"
        # fixpoint on the locations changed by the loop
        changed = {}
        rec = self.recording
        nested = sum(1 for hh, bb in c["loops"].items() if hh != h and hh in lb)
        for rnd in range(4):
            self.recording = False
            st = dict(s0)
            for k in changed:
                st[k] = mk("mu", lid, self.locname(b, fid, k), changed[k])
            inn2 = {h: [(TRUE, st)]}
            ev0 = self.gens
            self.gens = self.gens + (mk("while", lid),)
            backs = self.region(b, fid, c, lorder, h, inn2, [], TRUE)
            self.gens = ev0
            new = {}
            for _, bs in backs:
                for k, v in bs.items():
                    if k in s0 or k[0] == "P":
                        o = s0.get(k, k[1] if k[0] == "P" else None)
                        cur = st.get(k, k[1] if k[0] == "P" else None)
                        if v is not cur and k not in changed and not elemlocal(k, None):
                            new[k] = o
            self.recording = rec
            if not new:
                break
            changed.update(new)
        st = dict(s0)
        muterms = {}
        for k in changed:
            m = mk("mu", lid, self.locname(b, fid, k), changed[k])
            st[k] = m
            muterms[k] = m
        # is it a for loop?  header path: next(comp) switch leaving the loop on None
        self.forinfo = getattr(self, "forinfo", {})
        ev0 = self.gens
        comp = self.find_for(b, fid, c, h, lb, lorder, st)
        lcond = TRUE
        if comp is not None:
            gens, el, cond = self.iterate(comp)
            self.gens = self.gens + gens
            lcond = cond
        else:
            self.gens = self.gens + (mk("while", lid),)
        inn2 = {h: [(g0, st)]}
        rets2 = []
        self.loopctx = getattr(self, "loopctx", [])
        self.loopctx.append((b.id, lb, comp))
        n0 = len(self.events)
        backs = self.region(b, fid, c, lorder, h, inn2, rets2, g0)
        self.loopctx.pop()
        lg = self.gens[len(ev0):]
        if rec:
            # the loop goes on exactly under the conditions of its back edges
            early = comp is None or any(g != FALSE and s.get(("exit", id(lb))) is None for t in inn2 for g, s in inn2[t])
            if early:
                self.events.append(Event(kind="again", gate=OR(*[g for g, _ in backs]) if backs else FALSE, gens=ev0 + lg, name="again", args=(B(TRUE),), roots=(None,),
                                         fn=b.key, line=0, extra=(comp is None, tuple(muterms.values()), [e for e in self.events[n0:]])))
        self.gens = ev0
        if rec:
            for k, m in muterms.items():
                vals = [(bg, bs.get(k)) for bg, bs in backs if bs.get(k) is not None]
                if vals:
                    old = self.mus.get(m)
                    self.mus[m] = (changed[k], tuple(vals), lg, g0)
        # exits
        exits = []
        for tgt in list(inn2):
            for (g, s) in inn2[tgt]:
                exits.append([tgt, g, s])
        normal = None
        for e in exits:
            m = e[2].get(("exit", id(lb)))
            if m is not None:
                normal = e
        if normal is None and exits:
            normal = min(exits, key=lambda e: c["pos"].get(e[0], 0)) if comp is None else None
        others = [e for e in exits if e is not normal]
        acc = FALSE
        for e in others:
            ex = self.mkexists(lg, e[1])
            ex = AND(ex, NOT(acc))
            acc = OR(acc, ex)
            e[1] = AND(g0, ex)
        if normal is not None:
            normal[1] = AND(g0, NOT(acc))
        for tgt, g, s in exits:
            s = {k: v for k, v in s.items() if k[0] != "exit"}
            inn.setdefault(tgt, []).append((g, s))
        for g, s in rets2:
            rets.append((g, s))

    def mkexists(self, gens, cond):
        """∃ over gens of cond; independent of the binder when trivially so."""
        for g in reversed(gens):
            cond = self.exists1(g, cond)
        return cond

    def exists1(self, g, cond):
        """∃ element of one generator: loop-invariant atoms are expanded outwards
        (∃x. a∧p(x) = a ∧ ∃x. p(x)), which makes the form independent of where the
        invariant test was written."""
        if cond == FALSE:
            return FALSE
        if g.op == "once":
            return cond
        inv = [a for a in support(cond) if not depends(a, g)]
        if len(inv) > 8:
            keep = [a for a in inv if restrict(cond, a, False) == FALSE or restrict(cond, a, True) == FALSE]
            inv = keep[:8]
        def go(c, rest):
            if c == FALSE:
                return FALSE
            rest = [a for a in rest if a in support(c)]
            if not rest:
                return var(mk("exists", (g,), c))
            a = rest[0]
            return ite(var(a), go(restrict(c, a, True), rest[1:]), go(restrict(c, a, False), rest[1:]))
        return go(cond, inv)

    def locname(self, b, fid, k):
        if k[0] == fid and isinstance(k[1], int):
            l = b.locals[k[1]]
            return l[1] if len(l) > 1 else f"_{k[1]}"
        if k[0] == "P":
            return "*" + pp(k[1], 3)
        return f"outer{k[0]}_{k[1]}"

    def find_for(self, b, fid, c, h, lb, lorder, st):
        """The comprehension iterated by a for-like loop with header h, if any."""
        x = h
        seen = set()
        loc = {}
        while x in lb and x not in seen:
            seen.add(x)
            bl = b.blocks[x]
            for p, r, _ in bl["s"]:
                if not p["p"] and r[0] == "ref" and r[1] == "mut":
                    loc[p["l"]] = r[2]
                elif not p["p"] and r[0] == "use" and ("mv" in r[1] or "cp" in r[1]):
                    q = r[1].get("mv") or r[1].get("cp")
                    if not q["p"] and q["l"] in loc:
                        loc[p["l"]] = loc[q["l"]]
            t = bl["t"]
            if t[0] == "goto" or t[0] == "drop":
                x = t[1] if t[0] == "goto" else t[2]
                continue
            if t[0] == "call" and "fn" in t[1] and t[1]["fn"]["name"] == "next" and t[2]:
                a = t[2][0]
                q = a.get("mv") or a.get("cp")
                if q is None:
                    return None
                pl = q
                if not q["p"] and q["l"] in loc:
                    pl = loc[q["l"]]
                    while pl["p"] and pl["p"][0][0] == "*" and pl["l"] in loc:
                        pl = loc[pl["l"]]
                r, p = self.place(b, fid, st, pl)
                v = self.read(st, r, p)
                if v.op == "mref":
                    v = self.read(st, v.a[0], v.a[1])
                if v.op in ("comp", "chain", "mu"):
                    return v if v.op != "mu" else None
                return None
            return None
        return None

    # ------------------------------------------------------------ one block
    def block(self, b, fid, c, x, g, st, rets):
        self.budget -= 1
        if self.budget < 0:
            raise Budget(b.key)
        bl = b.blocks[x]
        for p, r, ln in bl["s"]:
            if r[0] == "setdiscr":
                continue
            v = self.rvalue(b, fid, st, r)
            self.assign(b, fid, st, p, v, g, ln, x)
        t = bl["t"]
        k = t[0]
        live = c["live"]
        if k == "goto":
            return [(t[1], g, st)]
        if k == "drop":
            return [(t[2], g, st)]
        if k == "asm":
            return [(t[1], g, st)]
        if k == "return":
            rets.append((g, st))
            return []
        if k == "assert":
            return [(t[3], g, st)]
        if k == "switch":
            return self.switch(b, fid, c, x, g, st, t)
        if k == "call":
            st2, v = self.call(b, fid, st, g, t, x)
            if t[4] is None:
                return []
            self.assign(b, fid, st2, t[3], v, g, t[5], x)
            return [(t[4], g, st2)]
        return []

    def assign(self, b, fid, st, p, v, g, ln, x):
        r, path = self.place(b, fid, st, p)
        if r[0] == "P" and uninit(r[1]):
            pass        # the contents of a vec![..] under construction
        elif r[0] == "P" and self.recording:
            tgt = r[1]
            for f in path:
                tgt = proj(tgt, f)
            self.events.append(Event(kind="write", gate=g, gens=self.gens, name="=", args=(tgt, self.deep(v, st)), roots=((r, path), None),
                                     fn=b.key, line=(b.file, ln), site=self.newsite(), block=x, stack=tuple(self.stack),
                                     extra=self.read(st, r, path)))
        elif path and self.recording and isinstance(r[0], int):
            cur = self.read(st, r, path)
            self.events.append(Event(kind="lwrite", gate=g, gens=self.gens, name="=", args=(cur, self.deep(v, st)), roots=((r, path), None),
                                     fn=b.key, line=(b.file, ln), site=self.newsite(), block=x, stack=tuple(self.stack),
                                     extra=self.read(st, r, ())))
        self.write(st, r, path, v)

    def newsite(self):
        self.site += 1
        return self.site

    def switch(self, b, fid, c, x, g, st, t):
        v = self.operand(b, fid, st, t[1])
        ty = b.ty(t[4])
        live = c["live"]
        edges = []     # (target, cond)
        if ty["k"] == "bool":
            bv = tob(v)
            zero = [tg for val, tg in t[2] if val == "0"]
            if zero:
                edges = [(zero[0], NOT(bv)), (t[3], bv)]
            else:
                edges = [(t[2][0][1], bv), (t[3], NOT(bv))]
        elif v.op == "discr":
            tab = dict(v.a[1])
            allv = tuple(n for _, n in v.a[1])
            rest = TRUE
            named = set()
            for val, tg in t[2]:
                nm = tab.get(val, val)
                named.add(nm)
                cnd = is_variant(v.a[0], nm, allv)
                edges.append((tg, cnd))
                rest = AND(rest, NOT(cnd))
            edges.append((t[3], FALSE if set(allv) <= named else rest))
        else:
            rest = TRUE
            for val, tg in t[2]:
                n = int(val)
                cnd = eq(v, const(n), True)
                edges.append((tg, AND(rest, cnd)))
                rest = AND(rest, NOT(cnd))
            edges.append((t[3], rest))
        # prune diverging targets; record assertions
        alive = [(tg, cd) for tg, cd in edges if tg in live]
        dead = [(tg, cd) for tg, cd in edges if tg not in live]
        if dead and self.recording:
            ac = OR(*[cd for _, cd in alive])
            if ac != TRUE and alive:
                self.events.append(Event(kind="assert", gate=g, gens=self.gens, name="assert", args=(B(ac),), roots=(), fn=b.key,
                                         line=(b.file, 0), site=self.newsite(), block=x, stack=tuple(self.stack)))
        if not alive:
            return []
        if dead:
            care = OR(*[cd for _, cd in alive])
            if len(alive) == 1:
                alive = [(alive[0][0], TRUE)]
        # for-loop header?
        out = []
        fl = None
        if getattr(self, "loopctx", None) and self.loopctx[-1][0] == b.id and v.op == "discr" and v.a[0].op == "nextof":
            fl = self.loopctx[-1]
        for tg, cd in alive:
            if fl and fl[2] is not None and v.a[0].a[0] is fl[2]:
                if tg in fl[1]:
                    _, _, cond = self.iterate(fl[2])
                    out.append((tg, AND(g, cond), dict(st)))
                else:
                    s2 = dict(st)
                    s2[("exit", id(fl[1]))] = TT
                    out.append((tg, g, s2))
                continue
            gg = AND(g, cd)
            if gg == FALSE:
                continue
            out.append((tg, gg, dict(st)))
        return out

    # ------------------------------------------------------------ rvalues
    def rvalue(self, b, fid, st, r):
        k = r[0]
        if k == "use":
            return self.operand(b, fid, st, r[1])
        if k == "ref":
            if r[1] in ("mut", "raw"):
                root, path = self.place(b, fid, st, r[2])
                v = self.read(st, root, path)
                if v.op == "mref" and b.ty(r[2]["t"])["k"] == "ref":
                    return v
                return mk("mref", root, path)
            root, path = self.place(b, fid, st, r[2])
            v = self.read(st, root, path)
            if v.op == "mref":
                return self.read(st, v.a[0], v.a[1])
            return v
        if k == "cast":
            v = self.operand(b, fid, st, r[2])
            if "PointerCoercion" in r[1]:
                return v
            if r[1].startswith("IntToInt"):
                return self.intcast(b, r[2], v, b.ty(r[3])["s"])
            return v if r[1].startswith(("PtrToPtr", "Transmute", "Subtype")) else mk("call", "cast", (v,), None)
        if k == "bin":
            x = self.operand(b, fid, st, r[2])
            y = self.operand(b, fid, st, r[3])
            return self.binop(r[1], self.resolve(x, st), self.resolve(y, st), True)
        if k == "un":
            v = self.operand(b, fid, st, r[2])
            if r[1] == "Not":
                if self.isbool(b, r[2], v):
                    return B(NOT(tob(v)))
                return mk("op", "Not", (v,))
            if r[1] == "Neg":
                return neg(v)
            if r[1] == "PtrMetadata":
                return mk("len", v)
            return mk("op", r[1], (v,))
        if k == "discr":
            root, path = self.place(b, fid, st, r[1])
            v = self.read(st, root, path)
            return mk("discr", self.resolve(v, st), tuple(tuple(q) for q in r[2]))
        if k == "agg":
            vs = tuple(self.operand(b, fid, st, o) for o in r[2])
            kk = r[1]
            if kk[0] == "adt":
                return mk("agg", last(kk[1]), kk[2], vs, tuple(kk[3]))
            if kk[0] == "closure":
                return mk("closure", kk[1], vs)
            if kk[0] == "tuple":
                return mk("agg", "tuple", "tuple", vs)
            return mk("agg", "array", "array", vs)
        if k == "repeat":
            return mk("repeat", self.operand(b, fid, st, r[1]), r[2])
        return mk("other", str(r[1])[:40])

    def intcast(self, b, o, v, to):
        """Widening casts are the identity; narrowing and sign-changing ones are not."""
        q = o.get("mv") or o.get("cp")
        fr = b.ty(q["t"])["s"] if q is not None else None
        if fr not in WIDTH or to not in WIDTH:
            return v
        (fs, fw), (ts, tw) = WIDTH[fr], WIDTH[to]
        if v.op == "const" and isinstance(v.a[0], int):
            n = v.a[0] & ((1 << tw) - 1)
            return const(n - (1 << tw) if ts and n >> (tw - 1) else n)
        if (fs == ts and tw >= fw) or (not fs and ts and tw > fw):
            return v
        # truncating a truncation
        if v.op == "call" and v.a[0].startswith("cast:") and WIDTH[v.a[0][5:]][1] >= tw:
            return self.castterm(v.a[1][0], to)
        return self.castterm(v, to)

    def castterm(self, v, to):
        return mk("call", "cast:" + to, (v,), None)

    def isbool(self, b, o, v):
        if v.op in ("b", "exists", "is", "eq", "ge0", "eq0"):
            return True
        q = o.get("mv") or o.get("cp")
        return q is not None and b.ty(q["t"])["k"] == "bool"

    def binop(self, op, x, y, prim):
        if op.endswith("WithOverflow"):
            base = self.binop(op[:-len("WithOverflow")], x, y, prim)
            return mk("agg", "tuple", "tuple", (base, FF))
        if op.endswith("Unchecked"):
            op = op[:-len("Unchecked")]
        if op == "Add":
            return add(x, y)
        if op == "Sub":
            return add(x, y, -1)
        if op == "Mul":
            return mul(x, y)
        if op == "Lt":
            return B(lt(x, y))
        if op == "Le":
            return B(le(x, y))
        if op == "Gt":
            return B(lt(y, x))
        if op == "Ge":
            return B(le(y, x))
        if op == "Eq":
            return B(eq(x, y, prim))
        if op == "Ne":
            return B(NOT(eq(x, y, prim)))
        if op in ("BitAnd", "BitOr", "BitXor") and (x.op == "b" or y.op == "b"):
            p, q = tob(x), tob(y)
            return B(AND(p, q) if op == "BitAnd" else OR(p, q) if op == "BitOr" else ite(p, NOT(q), q))
        if op in ("BitAnd", "BitOr", "BitXor"):
            return acop(op, (x, y))
        return mk("op", op, (x, y))

    # ------------------------------------------------------------ iterators
    def as_comp(self, t):
        if t.op in ("comp", "chain"):
            return t
        if t.op == "collect":
            return self.as_comp(t.a[0])
        if t.op == "agg" and t.a[0] == "array":
            if len(t.a[2]) == 1:
                return mk("comp", (), t.a[2][0], TRUE)
            return mk("chain", tuple(mk("comp", (), e, TRUE) for e in t.a[2]))
        if t.op == "agg" and t.a[0] == "Option":
            return mk("comp", (), t.a[2][0], TRUE) if t.a[2] else mk("chain", ())
        if t.op == "cases" and all(l.op == "agg" and l.a[0] == "Option" for _, l in t.a[0]):
            return mk("comp", (), payload(t, "Some"), is_variant(t, "Some", VARIANTS["Option"]))
        if t.op == "cases" and all(l.op == "collect" for _, l in t.a[0]):
            ls = [(c, self.as_comp(l)) for c, l in t.a[0]]
            if all(l.op == "comp" and l.a[0] == ls[0][1].a[0] for _, l in ls):
                return mk("comp", ls[0][1].a[0], cases([(c, l.a[1]) for c, l in ls]), OR(*[AND(c, l.a[2]) for c, l in ls]))
        if t in self.gens:
            t = mk("again", t)
        return mk("comp", (t,), mk("elem", t), TRUE)

    def iterate(self, comp):
        """-> gens, elem, cond for a loop over it."""
        if comp.op == "chain":
            if len(comp.a[0]) == 1:
                return self.iterate(comp.a[0][0])
            return (comp,), mk("elem", comp), TRUE
        gens, el, cond = comp.a[0], comp.a[1], comp.a[2]
        if not gens:
            gens = (mk("once", el),)
        return gens, el, cond

    def cmap(self, comp, fn):
        """fn(gens, elem, cond) -> comp"""
        if comp.op == "chain":
            parts = []
            for x in comp.a[0]:
                y = self.cmap(x, fn)
                if y.op == "chain":
                    parts += list(y.a[0])
                else:
                    parts.append(y)
            return mk("chain", tuple(parts)) if len(parts) != 1 else parts[0]
        return fn(comp.a[0], comp.a[1], comp.a[2])

    def comp_bool(self, comp, pred):
        """∃ element satisfying pred(elem) -> bdd"""
        if comp.op == "chain":
            return OR(*[self.comp_bool(x, pred) for x in comp.a[0]])
        c = AND(comp.a[2], pred(comp.a[1]))
        if not comp.a[0]:
            return c
        return self.mkexists(comp.a[0], c)

    # ------------------------------------------------------------ calls
    def apply(self, b, st, f, args, gate, gens=(), cond=TRUE):
        """Apply a closure / fn value term to args. Returns (term, state)."""
        saved = self.gens
        if gens:
            self.gens = self.gens + tuple(gens)
        try:
            if f.op == "mref":
                f = self.read(st, f.a[0], f.a[1])
            if f.op == "closure":
                cb = self.p.bodies.get(f.a[0])
                if cb is not None and self.stack.count(cb.id) == 0 and len(self.stack) < self.maxdepth + 6:
                    env = f
                    # body takes (env, args...)
                    n = cb.nargs - 1
                    a = [env]
                    if n == len(args):
                        a += list(args)
                    elif len(args) == 1 and n > 1:
                        a += [proj(args[0], (".", str(i), "tuple")) for i in range(n)]
                    else:
                        a += list(args)
                    r, s2 = self.run(cb, a, st, AND(gate, cond))
                    return r, s2
            if f.op == "fnval":
                fj = f.a[3].v
                owner = next((x for x in self.p.bodies.values() if x.crate == f.a[2]), None)
                return self.docall(owner, st, gate if cond == TRUE else AND(gate, cond), fj, list(args), None, 0, None)
            if f.op == "cases" and all(l.op in ("closure", "fnval") for _, l in f.a[0]):
                self.gens = saved
                rs, ins = [], []
                for c, l in f.a[0]:
                    r, s2 = self.apply(b, st, l, args, AND(gate, c), gens=gens, cond=cond)
                    rs.append((c, r))
                    ins.append((AND(gate, c), s2))
                return cases(rs), self.merge(ins)[1]
            return mk("call", "apply", (f,) + tuple(args), None), st
        finally:
            self.gens = saved

    def apply_ho(self, b, st, f, args, gate, why, gens=(), cond=TRUE):
        """Apply a closure an unknown number of times: what it changes is opaque
        (`mu`) on entry.  -> (result term, state inside, state after)."""
        changed = {}
        rec = self.recording
        for _ in range(3):
            self.recording = False
            s0 = dict(st)
            for k in changed:
                s0[k] = mk("mu", "ho:" + why, self.kname(k), changed[k])
            try:
                r, s1 = self.apply(b, s0, f, args, gate, gens=gens, cond=cond)
            finally:
                self.recording = rec
            new = {}
            for k, v in s1.items():
                if k in st or k[0] == "P":
                    cur = s0.get(k, k[1] if k[0] == "P" else None)
                    if cur is not v and k not in changed and not elemlocal(k, gens):
                        new[k] = st.get(k, k[1] if k[0] == "P" else None)
            if not new:
                break
            changed.update(new)
        # element-local writes (through the closure's own argument) need no mu
        s0 = dict(st)
        for k in changed:
            if k[0] == "P" and any(a.op == "mref" and a.a[0] == k for a in args):
                continue
            s0[k] = mk("mu", "ho:" + why, self.kname(k), changed[k])
        r, s1 = self.apply(b, s0, f, args, gate, gens=gens, cond=cond)
        after = dict(st)
        for k in changed:
            if k[0] == "P" and any(a.op == "mref" and a.a[0] == k for a in args):
                after[k] = mk("mu", "ho:" + why, self.kname(k), changed[k])
                continue
            m = s0[k]
            after[k] = m
            if rec:
                self.mus[m] = (changed[k], ((TRUE, s1.get(k, m)),), gens, gate)
        return r, s1, after

    def lam(self, b, st, a, cn, src, g):
        """A function value handed to code that is not analysed: its behaviour on
        opaque arguments."""
        if a.op == "closure":
            cb = self.p.bodies.get(a.a[0])
            n = cb.nargs - 1 if cb is not None else 0
        else:
            cb = self.target_body(a.a[3].v)
            if cb is not None and (cb.crate == "" or a.a[3].v["def"].startswith(STD)):
                cb = None
            n = cb.nargs if cb is not None else 0
        if cb is None or self.stack.count(cb.id):
            return a, st
        off = cb.nargs - n + 1
        ho = [mk("hoarg", cn, src, k) for k in range(n)]
        s2 = st
        for k in range(n):
            ty = cb.ty(cb.locals[k + off][0])
            if ty["k"] == "ref" and ty.get("mut"):
                h = ho[k]
                s2 = dict(s2)
                s2[("P", h)] = h
                ho[k] = mk("mref", ("P", h), ())
        r, s3, s2 = self.apply_ho(b, s2, a, ho, g, cn, gens=(mk("ho", cn, src),))
        return mk("lambda", self.deep(r, s3)), s2

    def kname(self, k):
        if isinstance(k[0], int):
            bid = self.frames.get(k[0])
            bb = self.p.bodies.get(bid)
            if bb is not None:
                l = bb.locals[k[1]]
                return l[1] if len(l) > 1 else f"_{k[1]}"
        return str(k[0]) + "_" + (pp(k[1], 4) if isinstance(k[1], T) else str(k[1]))

    def call(self, b, fid, st, g, t, x):
        args = [self.operand(b, fid, st, a) for a in t[2]]
        if "fn" not in t[1]:
            f = self.operand(b, fid, st, t[1])
            r, s2 = self.apply(b, st, f, args, g)
            return s2, r
        self.optypes = [self.isref(b, a) for a in t[2]]
        for a, v in zip(t[2], args):
            if v.op in ("field", "call", "elem", "as", "param", "idx") and self.isopt(b, a):
                self.opts.add(v)
        r, s2 = self.docall(b, st, g, t[1]["fn"], args, t[3], t[5], x)
        return s2, r

    def isref(self, b, o):
        p = o.get("cp") or o.get("mv")
        if p is None:
            return False
        ti = p.get("t", b.locals[p["l"]][0] if not p["p"] else None)
        return ti is not None and b.ty(ti)["k"] == "ref"

    def isopt(self, b, o):
        """The operand is an Option (a helper that takes any iterable does not say so)."""
        p = o.get("cp") or o.get("mv")
        ti = p.get("t", b.locals[p["l"]][0] if not p["p"] else None) if p else None
        if ti is None:
            return False
        ty = b.ty(ti)
        return ty["k"] == "adt" and ty["adt"].endswith("::Option")

    def docall(self, b, st, g, f, args, dest, line, x):
        name = f["name"]
        refs = tuple(getattr(self, "optypes", None) or ())
        self.optypes = None
        cn = self.cname(b, f)
        tb = self.target_body(f)
        std = f["def"].startswith(STD)
        if "{constructor#" in f["def"]:
            parts = f["def"].split("::")
            adt = "::".join(parts[:-1])
            names = tuple(str(i) for i in range(len(args)))
            if adt in self.p.adts:
                return mk("agg", parts[-2], parts[-2], tuple(args), names), st
            return mk("agg", parts[-3], parts[-2], tuple(args), names), st
        if tb is None or std:
            r = self.known_call(b, st, g, f, name, cn, args, dest, line, x)
            if r is not None:
                return r
        if tb is not None and self.should_inline(tb, cn):
            a = list(args)
            r, s2 = self.run(tb, a, st, g)
            return r, s2
        if name in ("or_default", "or_insert_with", "or_insert") and ("collections" in f["def"] or "entry" in f["def"] or "map" in f["def"]):
            # one form for entry(..).or_default() / or_insert(V::default()) / or_insert_with(V::new)
            args = list(args)
            if name == "or_insert_with" and len(args) == 2 and args[1].op == "closure":
                v, st = self.apply(b, st, args[1], [], g)
                args[1], name = self.deep(v, st), "or_insert"
            if name == "or_insert_with" and len(args) == 2 and args[1].op == "fnval" and str(args[1].a[0]).split("::")[-1] in ("new", "default"):
                args, name = args[:1], "or_default"
            if name == "or_default" and dest is not None:
                ty = b.ty(dest["t"])
                ty = b.ty(ty["args"][0]) if ty["k"] == "ref" else ty
                if ty["k"] == "int":
                    args, name = args[:1] + [const(0)], "or_insert"
            if name == "or_insert" and len(args) == 2 and args[1].op == "call" and args[1].a[0].split("::")[-1] in ("new", "default", "with_capacity") and not args[1].a[1]:
                args, name = args[:1], "or_default"
            cn = name
        if name == "default" and not args and dest is not None and b.ty(dest["t"])["k"] in ("int", "bool"):
            return (const(0) if b.ty(dest["t"])["k"] == "int" else FF), st
        # closures handed to opaque functions are analysed with opaque arguments
        vargs = []
        s2 = st
        args = list(args)
        for i, a in enumerate(args):
            if a.op == "mref":
                q = self.read(s2, a.a[0], a.a[1])
                if q.op in ("closure", "fnval"):
                    args[i] = a = q
            v = self.deep(a, s2)
            if a.op in ("closure", "fnval"):
                v, s2 = self.lam(b, s2, a, cn, tuple(q for q in vargs if q.op != "lambda")[:1], g)
            vargs.append(v)
        impure = any(a.op == "mref" for a in args)
        site = None
        if impure or name in ("new", "default", "with_capacity") or name == "fresh":
            site = self.newsite() if self.recording else -1
            site = f"{b.key}:{line}" if x is None else f"{b.key}#{x}"
        # self type for trait calls on generic things
        res = mk("call", cn, tuple(vargs), site)
        if self.recording:
            self.events.append(Event(kind="call", gate=g, gens=self.gens, name=cn, args=tuple(vargs),
                                     roots=tuple((a.a[0], a.a[1]) if a.op == "mref" else None for a in args),
                                     res=res, fn=b.key, line=(b.file, line), site=self.newsite(), block=x, extra=f,
                                     stack=tuple(self.stack), refs=refs))
        if impure:
            s2 = dict(s2)
            for i, a in enumerate(args):
                if a.op == "mref":
                    cur = self.read(s2, a.a[0], a.a[1])
                    if self.scalarish(cur):
                        self.write(s2, a.a[0], a.a[1], mk("out", res, i))
        if dest is not None and b.ty(dest["t"])["k"] == "bool":
            res = B(var(res))
        return res, s2

    def havoc_changes(self, b, s0, s1, why):
        """State after an unknown number of closure invocations."""
        out = dict(s0)
        for k, v in s1.items():
            if k in s0 or k[0] == "P":
                o = s0.get(k, k[1] if k[0] == "P" else None)
                if o is not v:
                    m = mk("mu", "ho:" + why, str(k[0]) + "_" + (str(k[1]) if isinstance(k[1], int) else "p"), o)
                    out[k] = m
                    if self.recording:
                        self.mus[m] = (o, ((TRUE, v),), (mk("ho", why, ()),), TRUE)
        return out

    def scalarish(self, t):
        if t.op in ("const", "b", "lin", "mu", "out", "len"):
            return True
        if t.op == "agg" and t.a[0] in ("Option",):
            return True
        if t.op == "cases":
            return all(self.scalarish(l) for _, l in t.a[0])
        return False

    def deep(self, t, st):
        """Resolve mutable references for use in recorded terms."""
        if t.op == "mref":
            return self.deep(self.read(st, t.a[0], t.a[1]), st)
        if t.op == "agg" and any(x.op in ("mref", "closure", "agg", "cases") for x in t.a[2]):
            return mk("agg", t.a[0], t.a[1], tuple(self.deep(x, st) for x in t.a[2]), *t.a[3:])
        if t.op == "cases" and any(l.op in ("mref", "agg") for _, l in t.a[0]):
            return cases([(c, self.deep(l, st)) for c, l in t.a[0]])
        return t

    def uns(self, b, f):
        return True

    # ------------------------------------------------------------ known library functions
    def known_call(self, b, st, g, f, name, cn, args, dest, line, x):
        from known import known
        return known(self, b, st, g, f, name, cn, args, dest, line, x)


class _hold:
    _tab = {}

    def __new__(cls, v):
        k = (v["def"], v.get("res"), v["name"], tuple(v.get("targs") or ()))
        h = cls._tab.get(k)
        if h is None:
            h = object.__new__(cls)
            h.v = v
            cls._tab[k] = h
        return h

    def __repr__(self):
        return "fn"


_dep = {}


def depends(atom, g):
    """May the atom's value differ between iterations over g?"""
    k = (atom, g)
    r = _dep.get(k)
    if r is None:
        # a loop inside the closure sees one argument of it
        inside = {t for t in walk(g) if t.op == "hoarg"}
        bs = binders(g)
        plain = bs is not None
        r, seen, st = False, set(), [(atom, bs or frozenset((g,)))]
        while st and not r:
            t, bd = st.pop()
            if isinstance(t, tuple):
                st.extend((x, bd) for x in t)
                continue
            if not isinstance(t, T) or (t, bd) in seen:
                continue
            seen.add((t, bd))
            if t.op in ("mu", "acc", "nextof", "out") or t.op == "hoarg" and t not in inside or (t.op in ("elem", "index") and (t.a[0] in bd or not plain)) \
                    or t is g and g.op == "while" or (g.op == "while" and t.op == "call"):
                r = True
            elif t.op == "index" and t.a[0].op == "comp" and any(x in bd for x in t.a[0].a[0]):
                r = True
            elif t.op in ("comp", "exists"):
                st.append((t.a[0], bd))
                b2 = bd
                if plain:
                    for x in t.a[0]:
                        b2 = b2 - (binders(x) or frozenset((x,)))
                # an element bound in there is not g's
                if t.op == "comp":
                    st.append((t.a[1], b2))
                st.extend((x, b2) for x in support(t.a[1 if t.op == "exists" else 2]))
            elif t.op == "b":
                st.extend((x, bd) for x in support(t.a[0]))
            elif t.op == "cases":
                for c, l in t.a[0]:
                    st.append((l, bd))
                    st.extend((x, bd) for x in support(c))
            else:
                st.extend((x, bd) for x in t.a)
        _dep[k] = r
    return r


def binders(g):
    """The generators whose elements stand for an element of g; None: unknown."""
    if g.op in ELEMENTARY:
        return frozenset((g,))
    if g.op in ("take", "skip", "rev") and isinstance(g.a[0], T):
        x = g.a[0]
        out = {g}
        if x.op == "comp":
            for y in x.a[0]:
                b = binders(y)
                if b is None:
                    return None
                out |= b
            return frozenset(out)
        b = binders(x)
        return None if b is None else frozenset(out | b)
    return None


ELEMENTARY = {"param", "field", "as", "elem", "idx", "call", "collect", "agg"}


def elemlocal(k, gens):
    """Is the location the pointee of an iteration element (fresh per iteration)?"""
    if k[0] != "P":
        return False
    t = k[1]
    while t.op in ("field", "as", "idx"):
        t = t.a[0]
    if t.op != "elem":
        return False
    return gens is None or any(t.a[0] is g for g in gens) or True


# ---------------------------------------------------------------- projections
def payload(t, variant, i="0"):
    return proj(proj(t, ("as", variant)), (".", i, ""))


def proj(v, e):
    k = e[0]
    if v.op == "cases":
        if k == "as":
            keep = [(c, l) for c, l in v.a[0] if not (l.op == "agg" and l.a[1] != e[1])]
            if keep:
                care = OR(*[c for c, _ in keep])
                return cases([(c, proj(l, e)) for c, l in keep])
            return mk("as", v, e[1])
        if len(v.a[0]) <= 12:
            return cases([(c, proj(l, e)) for c, l in v.a[0]])
    if k == "as":
        if v.op == "agg":
            return v
        if v.op == "upd":
            return v
        return mk("as", v, e[1])
    if k == ".":
        nm = e[1]
        if v.op == "agg":
            if v.a[0] in ("tuple", "array"):
                i = int(nm)
                return v.a[2][i] if i < len(v.a[2]) else mk("field", v, nm)
            names = v.a[3] if len(v.a) > 3 else ()
            if nm in names:
                return v.a[2][names.index(nm)]
            return mk("field", v, nm)
        if v.op == "closure":
            i = int(nm)
            return v.a[1][i] if i < len(v.a[1]) else mk("field", v, nm)
        if v.op == "upd":
            if v.a[1] == nm:
                return v.a[2]
            if isinstance(v.a[1], str):
                return proj(v.a[0], e)
        if v.op == "as" and v.a[0].op == "nextof":
            return v.a[0].a[1]
        if v.op == "as" and v.a[0].op == "upd":
            return proj(v.a[0], e)
        if v.op == "as" and v.a[0].op == "tryb":
            # ControlFlow from Try::branch
            x, kind = v.a[0].a
            if v.a[1] == "Continue":
                return payload(x, "Some" if kind == "Option" else "Ok")
            return mk("residual", x, kind)
        if v.op == "as" and v.a[0].op == "collect" and len(v.a[0].a) > 1 and v.a[0].a[1] in ("Result", "Option"):
            c = v.a[0].a[0]
            w = "Ok" if v.a[0].a[1] == "Result" else "Some"
            if v.a[1] == w and c.op == "comp":
                return mk("collect", mk("comp", c.a[0], payload(c.a[1], w), c.a[2]))
        if v.op == "as" and v.a[0].op == "elem" and False:
            pass
        return mk("field", v, nm)
    if k == "[]":
        if v.op == "agg" and v.a[0] == "array" and e[1].op == "const" and isinstance(e[1].a[0], int) and e[1].a[0] < len(v.a[2]):
            return v.a[2][e[1].a[0]]
        if v.op == "upd" and v.a[1] is e[1]:
            return v.a[2]
        return mk("idx", v, e[1])
    if k == "[s]":
        return mk("subslice", v, e[1], e[2], e[3])
    return mk("proj", v, str(e))


def upd(old, path, val):
    if not path:
        return val
    e, rest = path[0], path[1:]
    if e[0] == "as":
        return upd(old, rest, val)
    key = e[1] if e[0] in (".", "[]") else str(e)
    if rest:
        val = upd(proj(old, e), rest, val)
    if old.op == "agg" and e[0] == ".":
        vs = list(old.a[2])
        if old.a[0] in ("tuple", "array"):
            i = int(e[1])
        else:
            names = old.a[3] if len(old.a) > 3 else ()
            i = names.index(e[1]) if e[1] in names else None
        if i is not None and i < len(vs):
            vs[i] = val
            return mk("agg", old.a[0], old.a[1], tuple(vs), *old.a[3:])
    if old.op == "upd" and old.a[1] == key:
        old = old.a[0]
    return mk("upd", old, key, val)
