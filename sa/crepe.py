"""The datalog rules of the rule-based optimizer (`crepe!` macro), read from source.

Rules are parsed, expressions are evaluated into terms (lets, blocks, closures, local
helpers and comparison styles normalised away) and two rule sets are compared up to
renaming of variables, order of rules and clauses, and introduction of intermediate
relations."""
import glob, os, re
from term import *
import term as TM

TOK = re.compile(r"""\s+|//[^\n]*|/\*.*?\*/|(?P<str>b?"(?:\\.|[^"\\])*")|(?P<chr>'(?:\\.|[^'\\])')|(?P<life>'[A-Za-z_]\w*)|(?P<num>\d[\d_]*(?:\.\d+)?(?:[iu]\d+|usize)?)|(?P<id>[A-Za-z_]\w*!?(?=\s*[({\[])|[A-Za-z_]\w*)|(?P<op>\.\.=|::|->|<-|=>|==|!=|<=|>=|&&|\|\||\.\.|\+=|-=|\*=|[-+*/%!&|^<>=.,;:(){}\[\]#@?$~])""", re.S)


class ParseError(Exception):
    pass


def lex(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise ParseError("cannot tokenize: " + s[i:i + 40])
        i = m.end()
        for k in ("str", "chr", "life", "num", "id", "op"):
            v = m.group(k)
            if v is not None:
                if k == "id" and v.endswith("!"):
                    j = i
                    # `x != y` never reaches here (needs bracket); macros only
                    out.append(("mac", v[:-1]))
                elif k == "op" and v == "<-":
                    out.append((k, v))
                else:
                    out.append((k, v))
                break
    out.append(("eof", ""))
    return out


class P:
    """Expressions, patterns and statements of the Rust subset used in the rules."""

    def __init__(self, toks):
        self.t, self.i = toks, 0

    def pk(self, k=0):
        return self.t[self.i + k][1]

    def kind(self, k=0):
        return self.t[self.i + k][0]

    def nx(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def at(self, v):
        return self.t[self.i][1] == v and self.t[self.i][0] in ("op", "id")

    def eat(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False

    def need(self, v):
        if not self.eat(v):
            raise ParseError(f"expected {v!r}, found {self.pk()!r} near " + " ".join(x[1] for x in self.t[max(0, self.i - 8):self.i + 4]))

    def split_and(self):
        pass

    # ---- types are skipped
    def skip_type(self, stops):
        d = 0
        while True:
            v = self.pk()
            if self.kind() == "eof":
                raise ParseError("type")
            if d == 0 and v in stops:
                return
            if v in "([{<" and self.kind() == "op":
                d += 1
            elif v in (")", "]", "}", ">"):
                d -= 1
            self.i += 1

    def generics(self):
        """after `::`"""
        self.need("<")
        d = 1
        while d:
            v = self.nx()[1]
            if v == "<":
                d += 1
            elif v == ">":
                d -= 1
            elif v == "":
                raise ParseError("generics")

    # ---- patterns
    def pat(self):
        self.eat("|")
        r = self.pat1()
        alts = [r]
        while self.at("|"):
            self.nx()
            alts.append(self.pat1())
        return alts[0] if len(alts) == 1 else ("or", alts)

    def pat1(self):
        while self.eat("&") or self.eat("mut") or self.eat("ref"):
            pass
        if self.eat("&&"):
            return self.pat1()
        if self.eat("_"):
            return ("wild",)
        if self.eat("("):
            ps = self.plist(")")
            return ps[0] if len(ps) == 1 else ("ptuple", ps)
        if self.eat("["):
            return ("parr", self.plist("]"))
        if self.eat(".."):
            return ("rest",)
        if self.kind() in ("num", "str"):
            return ("plit", self.nx()[1])
        if self.eat("-"):
            return ("plit", "-" + self.nx()[1])
        if self.kind() in ("id", "mac"):
            path = self.path()
            if self.eat("("):
                return ("pctor", path, self.plist(")"))
            if self.eat("{"):
                fs = []
                while not self.eat("}"):
                    if self.eat(".."):
                        continue
                    while self.eat("ref") or self.eat("mut"):
                        pass
                    n = self.nx()[1]
                    fs.append((n, self.pat() if self.eat(":") else ("pvar", n)))
                    self.eat(",")
                return ("pstruct", path, fs)
            if len(path) == 1 and (path[0][0].islower() or path[0][0] == "_"):
                if self.eat("@"):
                    return ("at", path[0], self.pat1())
                return ("pvar", path[0])
            return ("pctor", path, [])
        raise ParseError("pattern " + self.pk())

    def plist(self, end):
        out = []
        while not self.eat(end):
            out.append(self.pat())
            self.eat(",")
        return out

    def path(self):
        p = [self.nx()[1]]
        while self.at("::"):
            self.nx()
            if self.at("<"):
                self.generics()
            else:
                p.append(self.nx()[1])
        return p

    # ---- expressions
    PREC = {"||": 1, "&&": 2, "==": 3, "!=": 3, "<": 3, ">": 3, "<=": 3, ">=": 3, "|": 4, "^": 5, "&": 6, "+": 8, "-": 8, "*": 9, "/": 9, "%": 9}

    def expr(self, p=0, nostruct=False):
        if self.at("return"):
            self.nx()
            return ("return", None if self.pk() in (";", "}", ",") else self.expr())
        if self.at("|") or self.at("||") or self.at("move"):
            return self.closure()
        l = self.unary(nostruct)
        while True:
            v = self.pk()
            if self.kind() == "op" and v == "<-":       # a < -b
                pr = 3
                if pr <= p:
                    return l
                self.nx()
                r = self.expr(3, nostruct)
                l = ("bin", "<", l, ("neg", r))
                continue
            if self.kind() == "op" and v in ("..", "..=") and p < 1:
                self.nx()
                r = None if self.pk() in (")", "]", "}", ",", ";") else self.expr(1, nostruct)
                l = ("range", v, l, r)
                continue
            if self.kind() != "op" or v not in self.PREC or self.PREC[v] <= p:
                return l
            self.nx()
            r = self.expr(self.PREC[v], nostruct)
            l = ("bin", v, l, r)

    def closure(self):
        self.eat("move")
        ps = []
        if not self.eat("||"):
            self.need("|")
            while not self.eat("|"):
                ps.append(self.pat1())
                if self.eat(":"):
                    self.skip_type((",", "|"))
                self.eat(",")
        if self.eat("->"):
            self.skip_type(("{",))
        return ("lam", ps, self.expr())

    def unary(self, ns):
        if self.eat("!"):
            return ("not", self.unary(ns))
        if self.eat("-"):
            return ("neg", self.unary(ns))
        if self.eat("&") or self.eat("&&"):
            self.eat("mut")
            return self.unary(ns)
        if self.eat("*"):
            return self.unary(ns)
        e = self.postfix(self.primary(ns))
        while self.at("as"):
            self.nx()
            self.skip_type((")", ",", ";", "]", "}", "+", "-", "*", "/", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "{"))
            e = ("cast", e)
        return e

    def args(self, end=")"):
        out = []
        while not self.eat(end):
            out.append(self.expr())
            if not self.eat(","):
                self.need(end)
                break
        return out

    def postfix(self, e):
        while True:
            if self.at("."):
                self.nx()
                if self.kind() == "num":
                    for n in self.nx()[1].split("."):
                        e = ("field", e, n)
                    continue
                n = self.nx()[1]
                if self.at("::"):
                    self.nx()
                    self.generics()
                if self.eat("("):
                    e = ("method", e, n, self.args())
                else:
                    e = ("field", e, n)
            elif self.eat("?"):
                e = ("try", e)
            elif self.at("("):
                self.nx()
                e = ("call", e, self.args())
            elif self.at("["):
                self.nx()
                e = ("index", e, self.expr())
                self.need("]")
            else:
                return e

    def block(self):
        """after `{` -> ("block", stmts, tail)"""
        st, tail = [], None
        while not self.eat("}"):
            if self.eat(";"):
                continue
            if self.at("let"):
                self.nx()
                p = self.pat()
                if self.eat(":"):
                    self.skip_type(("=", ";"))
                self.need("=")
                e = self.expr()
                els = None
                if self.eat("else"):
                    self.need("{")
                    els = self.block()
                self.need(";")
                st.append(("let", p, e, els))
                continue
            e = self.expr()
            if self.eat(";"):
                st.append(("expr", e))
            elif self.at("}"):
                tail = e
            elif e[0] in ("if", "iflet", "match", "block", "for", "while"):
                st.append(("expr", e))
            else:
                raise ParseError("statement near " + self.pk())
        return ("block", st, tail)

    def primary(self, ns):
        k, v = self.kind(), self.pk()
        if v == "(" and k == "op":
            self.nx()
            if self.eat(")"):
                return ("tuple", [])
            e = self.expr()
            if self.eat(")"):
                return e
            self.need(",")
            return ("tuple", [e] + self.args())
        if v == "[" and k == "op":
            self.nx()
            if self.eat("]"):
                return ("array", [])
            e = self.expr()
            if self.eat(";"):
                n = self.expr()
                self.need("]")
                return ("repeat", e, n)
            if self.eat("]"):
                return ("array", [e])
            self.need(",")
            return ("array", [e] + self.args("]"))
        if v == "{" and k == "op":
            self.nx()
            return self.block()
        if v == "if":
            self.nx()
            return self.ifx()
        if v == "match":
            self.nx()
            s = self.expr(nostruct=True)
            self.need("{")
            arms = []
            while not self.eat("}"):
                p = self.pat()
                g = self.expr() if self.eat("if") else None
                self.need("=>")
                arms.append((p, g, self.expr()))
                self.eat(",")
            return ("match", s, arms)
        if k == "num":
            self.nx()
            return ("num", int(re.sub(r"[iu]\w+$|_", "", v)))
        if k in ("str", "chr"):
            self.nx()
            return ("str", v)
        if v in ("true", "false"):
            self.nx()
            return ("bool", v == "true")
        if k == "mac":
            n = self.nx()[1]
            if n in ("if", "match", "return", "in", "let", "for"):
                raise ParseError("keyword " + n)
            o = self.nx()[1]
            end = {"(": ")", "[": "]", "{": "}"}[o]
            return ("macro", n, self.args(end))
        if v == "<" and k == "op":        # <T as Trait>::f
            self.nx()
            self.skip_type((">",))
            self.nx()
            self.need("::")
            return ("path", ["Q"] + self.path())
        if k == "id":
            p = self.path()
            if self.at("{") and not ns and p[-1][0].isupper():
                self.nx()
                fs = []
                while not self.eat("}"):
                    if self.eat(".."):
                        fs.append(("..", self.expr()))
                        continue
                    n = self.nx()[1]
                    fs.append((n, self.expr() if self.eat(":") else ("path", [n])))
                    self.eat(",")
                return ("struct", p, fs)
            return ("path", p)
        raise ParseError("expression near " + " ".join(x[1] for x in self.t[max(0, self.i - 5):self.i + 5]))

    def ifx(self):
        if self.eat("let"):
            p = self.pat()
            self.need("=")
            c = ("pat", p, self.expr(2, nostruct=True))
            rest = None
            if self.eat("&&"):
                rest = self.expr(nostruct=True)
            c = ("iflet", c[1], c[2], rest)
        else:
            c = ("if", self.expr(nostruct=True))
        self.need("{")
        a = self.block()
        b = None
        if self.eat("else"):
            if self.eat("if"):
                b = self.ifx()
            else:
                self.need("{")
                b = self.block()
        return c + (a, b)


# `ident!(`-style lexing also hits `if (`; undo for keywords
_KW = {"if", "match", "return", "in", "while", "for", "let"}


# ---------------------------------------------------------------- evaluation
class Unknown(Exception):
    pass


DROP = {"clone", "cloned", "copied", "to_owned", "iter", "into_iter", "as_ref", "collect_vec", "collect", "into", "borrow", "to_vec", "unwrap"}


class Eval:
    def __init__(self, fns=None, known=()):
        self.fns = fns or {}
        self.known = known          # function names present in the confirmed rules
        self.lp = 0
        self.depth = 0
        self.vocab = set()

    def boolt(self, f):
        return B(f)

    def eq(self, a, b):
        if a is b:
            return TRUE
        if a.op == "b" and b.op == "b":
            f, g = tob(a), tob(b)
            return OR(AND(f, g), AND(NOT(f), NOT(g)))
        d = add(a, b, -1)
        if d.op == "const":
            return TRUE if d.a[0] == 0 else FALSE
        n = neg(d)
        return var(mk("feq", min(d, n, key=lambda t: t.id)))

    def lt(self, a, b):
        return var(mk("flt", a, b))

    def bind(self, p, v, env):
        """-> condition under which p matches v; binds into env"""
        k = p[0]
        if k == "wild" or k == "rest":
            return TRUE
        if k == "pvar":
            env[p[1]] = v
            return TRUE
        if k == "at":
            env[p[1]] = v
            return self.bind(p[2], v, env)
        if k == "plit":
            return self.eq(v, const(int(p[1])) if re.fullmatch(r"-?\d+", p[1]) else mk("str", p[1]))
        if k in ("ptuple", "parr"):
            c = TRUE
            for i, q in enumerate(p[1]):
                c = AND(c, self.bind(q, self.proj(v, str(i)), env))
            return c
        if k == "pctor":
            c = self.isv(v, p[1][-1])
            for i, q in enumerate(p[2]):
                c = AND(c, self.bind(q, self.payload(v, p[1][-1], str(i)), env))
            return c
        if k == "pstruct":
            c = TRUE
            for n, q in p[2]:
                c = AND(c, self.bind(q, self.proj(v, n), env))
            return c
        raise Unknown("pattern " + k)

    def isv(self, v, name):
        if v.op == "agg":
            return TRUE if v.a[0] == name else FALSE
        if v.op == "cases":
            r = FALSE
            for c, l in v.a[0]:
                r = OR(r, AND(c, self.isv(l, name)))
            return r
        if name in ("None", "Err"):
            return NOT(var(mk("isv", v, {"None": "Some", "Err": "Ok"}[name])))
        return var(mk("isv", v, name))

    def payload(self, v, name, i):
        if v.op == "agg":
            return v.a[1][int(i)] if v.a[0] == name and int(i) < len(v.a[1]) else mk("bot")
        if v.op == "cases":
            ls = [(c, self.payload(l, name, i)) for c, l in v.a[0] if self.isv(l, name) != FALSE]
            if len(ls) == 1:
                return ls[0][1]
            return cases(ls) if ls else mk("bot")
        return mk("pay", v, name, i)

    def proj(self, v, i):
        if v.op == "tup" and i.isdigit() and int(i) < len(v.a[0]):
            return v.a[0][int(i)]
        if v.op == "cases":
            return cases([(c, self.proj(l, i)) for c, l in v.a[0]])
        return mk("proj", v, i)

    def ev(self, e, env):
        k = e[0]
        if k == "num":
            return const(e[1])
        if k == "bool":
            return B(TRUE if e[1] else FALSE)
        if k == "str":
            return mk("str", e[1])
        if k == "path":
            p = e[1]
            if len(p) == 1 and p[0] in env:
                return env[p[0]]
            if p == ["None"]:
                return mk("agg", "None", ())
            self.vocab.add(p[-1])
            return mk("fn", "::".join(p[-2:])) if p[-1][:1].islower() or len(p) == 1 else mk("agg", p[-1], ())
        if k == "neg":
            return neg(self.ev(e[1], env))
        if k == "not":
            return B(NOT(tob(self.ev(e[1], env))))
        if k == "cast":
            return mk("cast", self.ev(e[1], env))
        if k == "bin":
            o = e[1]
            if o in ("&&", "||"):
                a, b = tob(self.ev(e[2], env)), tob(self.ev(e[3], env))
                return B(AND(a, b) if o == "&&" else OR(a, b))
            a, b = self.ev(e[2], env), self.ev(e[3], env)
            if o == "==":
                return B(self.eq(a, b))
            if o == "!=":
                return B(NOT(self.eq(a, b)))
            if o == "<":
                return B(self.lt(a, b))
            if o == ">":
                return B(self.lt(b, a))
            if o == "<=":
                return B(NOT(self.lt(b, a)))
            if o == ">=":
                return B(NOT(self.lt(a, b)))
            if o == "+":
                return add(a, b)
            if o == "-":
                return add(a, b, -1)
            if o == "*":
                return mul(a, b)
            if o == "/":
                if a.op == "const" and a.a[0] == 0:
                    return a
                n = neg(a)
                # -a / b  =  -(a / b)
                if n.op != "const" and n.id < a.id:
                    return neg(mk("div", n, b))
                return mk("div", a, b)
            return mk("op2", o, a, b)
        if k == "tuple":
            return mk("tup", tuple(self.ev(x, env) for x in e[1]))
        if k == "array":
            return mk("tup", tuple(self.ev(x, env) for x in e[1]))
        if k == "repeat":
            return mk("repeat", self.ev(e[1], env), self.ev(e[2], env))
        if k == "index":
            i = self.ev(e[2], env)
            v = self.ev(e[1], env)
            if i.op == "const":
                return self.proj(v, str(i.a[0]))
            return mk("index", v, i)
        if k == "field":
            return self.proj(self.ev(e[1], env), e[2])
        if k == "struct":
            return mk("struct", e[1][-1], tuple(sorted((n, self.ev(x, env)) for n, x in e[2])))
        if k == "macro":
            return mk("macro", e[1], tuple(self.ev(x, env) for x in e[2]))
        if k == "range":
            return mk("range", e[1], self.ev(e[2], env), self.ev(e[3], env) if e[3] else mk("none"))
        if k == "lam":
            return mk("lamv", _Clo(e, dict(env)))
        if k == "block":
            r = self.block(e, dict(env))
            return r
        if k in ("if", "iflet"):
            return self.ifx(e, env)
        if k == "match":
            v = self.ev(e[1], env)
            out, rest = [], TRUE
            for p, g, x in e[2]:
                en = dict(env)
                c = self.bind(p, v, en)
                if g is not None:
                    c = AND(c, tob(self.ev(g, en)))
                out.append((AND(rest, c), self.ev(x, en)))
                rest = AND(rest, NOT(c))
            return cases([(c, l) for c, l in out if c != FALSE])
        if k == "call":
            return self.call(e, env)
        if k == "method":
            return self.method(e, env)
        if k == "try":
            v = self.ev(e[1], env)
            return self.payload(v, "Some", "0")
        raise Unknown(k)

    # blocks with early return: value as cases
    def block(self, e, env):
        r, done = self.stmts(list(e[1]), e[2], env)
        return r

    def stmts(self, st, tail, env):
        """-> (value, always returned?)"""
        if not st:
            if tail is None:
                return mk("tup", ()), False
            if tail[0] == "return":
                return (self.ev(tail[1], env) if tail[1] else mk("tup", ())), True
            return self.ev(tail, env), False
        s, rest = st[0], st[1:]
        if s[0] == "let":
            v = self.ev(s[2], env)
            if v.op == "lamv":
                env = dict(env)
                env[s[1][1]] = v
                return self.stmts(rest, tail, env)
            env2 = dict(env)
            c = self.bind(s[1], v, env2)
            if s[3] is not None:
                a = self.block(s[3], env)
                b, _ = self.stmts(rest, tail, env2)
                return cases([(NOT(c), a), (c, b)]), False
            return self.stmts(rest, tail, env2)
        x = s[1]
        if x[0] == "return":
            return (self.ev(x[1], env) if x[1] else mk("tup", ())), True
        if x[0] in ("if", "iflet") and has_return(x):
            c, en, a, b = self.cond(x, env)
            va = self.branch(a, rest, tail, en, env)
            vb = self.branch(b, rest, tail, env, env) if b is not None else self.stmts(rest, tail, env)[0]
            return cases([(c, va), (NOT(c), vb)]), False
        if x[0] == "macro":
            return self.stmts(rest, tail, env)
        # effect statement: keep it in order
        v = self.ev(x, env)
        r, d = self.stmts(rest, tail, env)
        return mk("seq", v, r), d

    def branch(self, blk, rest, tail, en, outer):
        if blk[0] in ("if", "iflet"):
            blk = ("block", [("expr", blk)], None)
        if always_returns(blk):
            return self.stmts(list(blk[1]), blk[2], en)[0]
        return self.stmts(list(blk[1]) + ([("expr", blk[2])] if blk[2] else []) + rest, tail, en)[0]

    def cond(self, x, env):
        if x[0] == "if":
            return tob(self.ev(x[1], env)), env, x[2], x[3]
        en = dict(env)
        c = self.bind(x[1], self.ev(x[2], env), en)
        if x[3] is not None:
            c = AND(c, tob(self.ev(x[3], en)))
        return c, en, x[4], x[5]

    def ifx(self, x, env):
        c, en, a, b = self.cond(x, env)
        va = self.ev(a, en)
        vb = self.ev(b, env) if b is not None else mk("tup", ())
        if va.op == "b" and vb.op == "b":
            return B(OR(AND(c, tob(va)), AND(NOT(c), tob(vb))))
        return cases([(c, va), (NOT(c), vb)])

    def apply(self, clo, args):
        _, ps, body = clo.e
        env = dict(clo.env)
        for p, a in zip(ps, args):
            self.bind(p, a, env)
        self.depth += 1
        if self.depth > 40:
            raise Unknown("recursion")
        try:
            return self.ev(("block", [], body) if body[0] != "block" else body, env)
        finally:
            self.depth -= 1

    def lam(self, t):
        """A closure as an argument: canonical lambda."""
        if t.op != "lamv":
            return t
        clo = t.a[0]
        self.lp += 1
        ps = [mk("lp", self.lp, i) for i in range(len(clo.e[1]))]
        try:
            r = self.apply(clo, ps)
        finally:
            self.lp -= 1
        if r.op == "call" and r.a[1] == tuple(ps) and len(ps) >= 1:
            return mk("fn", r.a[0])          # eta
        return mk("lambda", len(ps), r)

    def call(self, e, env):
        f = e[1]
        if f[0] == "path":
            p = f[1]
            n = p[-1]
            if len(p) == 1 and n in env and env[n].op == "lamv":
                return self.apply(env[n].a[0], [self.ev(x, env) for x in e[2]])
            args = [self.lam(self.ev(x, env)) for x in e[2]]
            if n == "from" and p[0] == "T" and args[0].op == "const":
                return args[0]
            if n in ("zero", "one") and not args:
                return const(0 if n == "zero" else 1)
            if n in ("Some", "Ok", "Err"):
                return mk("agg", n, tuple(args))
            if len(p) == 1 and n in self.fns and n not in self.known:
                ps, body = self.fns[n]
                return self.apply(_Clo(("lam", ps, body), {}), args)
            self.vocab.add(n)
            if n[:1].isupper():
                return mk("agg", n, tuple(args))
            if len(p) > 1 and p[-2][:1].isupper() and p[-2] in ("GroupedExpression", "RangeConstraint", "Self", "T"):
                return mk("call", p[-2] + "::" + n, tuple(args))
            return mk("call", n, tuple(args))
        if f[0] == "lam":
            return self.apply(_Clo(f, dict(env)), [self.ev(x, env) for x in e[2]])
        g = self.ev(f, env)
        if g.op == "lamv":
            return self.apply(g.a[0], [self.ev(x, env) for x in e[2]])
        return mk("call", "apply", (g,) + tuple(self.lam(self.ev(x, env)) for x in e[2]))

    def method(self, e, env):
        _, recv, n, args = e
        v = self.ev(recv, env)
        if n in DROP and not args:
            return v
        a = [self.lam(self.ev(x, env)) for x in args]
        if n == "is_zero" and not a:
            return B(self.eq(v, const(0)))
        if n == "is_one" and not a:
            return B(self.eq(v, const(1)))
        if n == "map" and v.op == "tup" and len(args) == 1:
            f = self.ev(args[0], env)
            if f.op == "lamv":
                return mk("tup", tuple(self.apply(f.a[0], [x]) for x in v.a[0]))
        if n == "eq":
            return B(self.eq(v, a[0]))
        if n == "ne":
            return B(NOT(self.eq(v, a[0])))
        if n in ("is_some", "is_none") and not a:
            c = self.isv(v, "Some")
            return B(c if n == "is_some" else NOT(c))
        # not any(p)  =  all(not p)
        if n == "all" and a and a[0].op == "lambda":
            p = a[0].a[1]
            return B(NOT(var(mk("call", ".any", (v, mk("lambda", a[0].a[0], B(NOT(tob(p)))))))))
        if n == "filter" and a and a[0].op == "lambda":
            return mk("call", ".filter", (v, mk("lambda", a[0].a[0], B(tob(a[0].a[1])))))
        self.vocab.add(n)
        return mk("call", "." + n, (v,) + tuple(a))


class _Clo:
    def __init__(self, e, env):
        self.e, self.env = e, env


def has_return(x):
    if isinstance(x, tuple):
        if x and x[0] == "return":
            return True
        if x and x[0] == "lam":
            return False
        return any(has_return(y) for y in x)
    if isinstance(x, list):
        return any(has_return(y) for y in x)
    return False


def always_returns(b):
    if b is None:
        return False
    if b[0] == "return":
        return True
    if b[0] == "block":
        return any(s[0] == "expr" and always_returns(s[1]) for s in b[1]) or (b[2] is not None and always_returns(b[2]))
    if b[0] == "if":
        return b[3] is not None and always_returns(b[2]) and always_returns(b[3])
    if b[0] == "iflet":
        return b[5] is not None and always_returns(b[4]) and always_returns(b[5])
    return False


# ---------------------------------------------------------------- rules
class Rules:
    def __init__(self, src, where):
        self.where = where
        m = re.search(r"\bcrepe!\s*\{", src)
        if not m:
            raise ParseError("no crepe! block")
        i, d = m.end(), 1
        body_end = None
        toks = lex_from(src, m.end())
        self.rel = {}          # name -> (io, nargs)
        self.rules = []        # (head name, head arg exprs, clauses)
        self.parse(toks)
        self.fns = {}
        for f in re.finditer(r"\bfn\s+(\w+)", src):
            try:
                self.fns[f.group(1)] = parse_fn(src, f.end())
            except ParseError:
                pass

    def parse(self, toks):
        p = P(toks)
        while p.kind() != "eof":
            io = ""
            while p.at("@"):
                p.nx()
                io = p.nx()[1]
            while p.at("#"):
                p.nx()
                p.need("[")
                p.skip_type(("]",))
                p.need("]")
            pub = p.eat("pub")
            if p.at("struct"):
                p.nx()
                n = p.nx()[1]
                if p.at("<"):
                    p.generics()
                p.need("(")
                k = 0
                while not p.eat(")"):
                    p.eat("pub")
                    p.skip_type((",", ")"))
                    p.eat(",")
                    k += 1
                p.need(";")
                self.rel[n] = (io, k)
                continue
            n = p.nx()[1]
            p.need("(")
            head = p.args()
            cl = []
            if p.eat("<-"):
                while True:
                    cl.append(self.clause(p))
                    if p.eat(";"):
                        break
                    p.need(",")
            else:
                p.need(";")
            self.rules.append((n, head, cl))

    def clause(self, p):
        if p.eat("let"):
            q = p.pat()
            p.need("=")
            return ("let", q, p.expr())
        if p.at("for"):
            p.nx()
            q = p.pat()
            p.need("in")
            return ("for", q, p.expr())
        if p.eat("("):
            e = p.expr()
            p.need(")")
            return ("cond", e)
        neg = p.eat("!")
        if p.kind() in ("id", "mac"):
            n = p.nx()[1]
            p.need("(")
            return ("not" if neg else "atom", n, p.args())
        raise ParseError("clause near " + p.pk())


def lex_from(src, i):
    """tokens up to the matching close brace"""
    out, d = [], 1
    while i < len(src):
        m = TOK.match(src, i)
        if not m:
            raise ParseError("cannot tokenize: " + src[i:i + 40])
        i = m.end()
        for k in ("str", "chr", "life", "num", "id", "op"):
            v = m.group(k)
            if v is None:
                continue
            if k == "op" and v == "{":
                d += 1
            elif k == "op" and v == "}":
                d -= 1
                if d == 0:
                    out.append(("eof", ""))
                    return out
            if k == "id" and v.endswith("!"):
                out.append(("mac", v[:-1]))
            else:
                out.append((k, v))
            break
    raise ParseError("unterminated")


def parse_fn(src, i):
    """fn parameters and body, from just after the name."""
    j = src.index("(", i) if src[i] != "<" else None
    if j is None:
        d, k = 0, i
        while True:
            if src[k] == "<":
                d += 1
            elif src[k] == ">" and src[k - 1] != "-":
                d -= 1
                if d == 0:
                    break
            k += 1
        j = src.index("(", k)
    toks = lex_from("(" + src[j + 1:] + "}", 0) if False else None
    # parameters
    d, k = 0, j
    while True:
        if src[k] == "(":
            d += 1
        elif src[k] == ")":
            d -= 1
            if d == 0:
                break
        k += 1
    p = P(lex(src[j + 1:k]))
    ps = []
    while p.kind() != "eof":
        ps.append(p.pat1())
        if p.eat(":"):
            try:
                p.skip_type((",",))
            except ParseError:
                break
        p.eat(",")
    b = src.index("{", k)
    return ps, P(lex_from(src, b + 1) and fixbody(src, b)).block()


def fixbody(src, b):
    t = lex_from(src, b + 1)
    return t[:-1] + [("op", "}"), ("eof", "")]


class Norm:
    """One rule: atoms over variables, one condition, head terms."""

    def __init__(self, rules, rule, known, names=None):
        self.head, hargs, cl = rule[0], rule[1], rule[2]
        self.ev = Eval(rules.fns, known)
        env = {}
        self.atoms = []        # (relation, negated, [var])
        cond = TRUE
        self.fresh = 0
        self.gens = []
        pend = []
        bound = set()
        for c in cl:
            if c[0] in ("atom", "not"):
                vs = []
                for a in c[2]:
                    if a == ("path", ["_"]):
                        v = self.newvar()
                    elif a[0] == "path" and len(a[1]) == 1 and a[1][0] not in env:
                        nm = a[1][0]
                        if c[0] == "not":
                            v = mk("rv", nm)
                        v = mk("rv", nm)
                        env[nm] = v
                    elif a[0] == "path" and len(a[1]) == 1 and env.get(a[1][0], mk("none")).op == "rv":
                        v = env[a[1][0]]
                    else:
                        v = self.newvar()
                        cond = AND(cond, self.ev.eq(v, self.ev.ev(a, env)))
                    vs.append(v)
                self.atoms.append((c[1], c[0] == "not", vs))
            elif c[0] == "cond":
                cond = AND(cond, tob(self.ev.ev(c[1], env)))
            elif c[0] == "let":
                cond = AND(cond, self.ev.bind(c[1], self.ev.ev(c[2], env), env))
            elif c[0] == "for":
                g = mk("gen", self.ev.ev(c[2], env))
                self.gens.append(g)
                cond = AND(cond, self.ev.bind(c[1], mk("elem", g), env))
        self.cond = cond
        self.hargs = [self.ev.ev(a, env) for a in hargs]

    def newvar(self):
        self.fresh += 1
        return mk("rv", f"%{self.fresh}")

    def occurrences(self):
        n = {}
        for _, _, vs in self.atoms:
            for v in vs:
                n[v] = n.get(v, 0) + 1
        for t in [B(self.cond)] + self.hargs + self.gens:
            for x in walk(t):
                if x.op == "rv":
                    n[x] = n.get(x, 0) + 1
        return n


def subst(t, m):
    import summ

    class R(summ.Rewrite):
        def _t(s, t):
            if t.op == "feq":
                e = Eval()
                return B(e.eq(s.t(t.a[0]), const(0)))
            if t.op == "flt":
                return B(Eval().lt(s.t(t.a[0]), s.t(t.a[1])))
            if t.op in ("lin", "mul", "b", "cases"):
                return super()._t(t)
            if t.op == "div":
                a, b = s.t(t.a[0]), s.t(t.a[1])
                n = neg(a)
                if n.op != "const" and n.id < a.id:
                    return neg(mk("div", n, b))
                return mk("div", a, b)
            return mk(t.op, *[s.x(y) for y in t.a])
    return R(pre=lambda x: m.get(x) if x.op == "rv" else None).t(t)


def match(a, b):
    """Do rules a (confirmed) and b agree up to variable renaming?  -> reason or None"""
    if a.head != b.head or len(a.hargs) != len(b.hargs):
        return "head"
    ka = sorted((n, g) for n, g, _ in a.atoms)
    kb = sorted((n, g) for n, g, _ in b.atoms)
    if ka != kb:
        return "the relations in its body differ: " + ", ".join(sorted({x[0] for x in set(ka) ^ set(kb)}) or ["multiplicity"])
    oa, ob = a.occurrences(), b.occurrences()
    best = ["variables are connected differently"]
    n = [0]

    def go(i, used, m, inv):
        n[0] += 1
        if n[0] > 20000:
            return False
        if i == len(a.atoms):
            ren = dict(inv)
            hb = [subst(t, ren) for t in b.hargs]
            cb = tob(subst(B(b.cond), ren))
            gb = sorted(subst(t, ren).id for t in b.gens)
            if gb != sorted(t.id for t in a.gens):
                best[0] = "it iterates over something else"
                return False
            if cb != a.cond:
                best[0] = f"its conditions differ: {ppb(a.cond)[:300]}  vs  {ppb(cb)[:300]}"
                return False
            for x, y in zip(a.hargs, hb):
                if x is not y:
                    best[0] = f"it derives something else: {str(x)[:300]}  vs  {str(y)[:300]}"
                    return False
            return True
        an, ag, avs = a.atoms[i]
        for j, (bn, bg, bvs) in enumerate(b.atoms):
            if j in used or bn != an or bg != ag:
                continue
            m2, inv2, ok = dict(m), dict(inv), True
            for x, y in zip(avs, bvs):
                if oa[x] == 1 and ob[y] == 1:
                    continue
                if (oa[x] == 1) != (ob[y] == 1):
                    ok = False
                    break
                if m2.get(x, y) is not y or inv2.get(y, x) is not x:
                    ok = False
                    break
                m2[x], inv2[y] = y, x
            if ok and go(i + 1, used | {j}, m2, inv2):
                return True
        return False
    return None if go(0, frozenset(), {}, {}) else best[0]


def unfold(rules, extra):
    """Replace atoms of relations in `extra` (single non-recursive rule each) by their bodies."""
    defs = {}
    for n in extra:
        rs = [r for r in rules.rules if r[0] == n]
        if len(rs) != 1 or any(c[0] in ("atom", "not") and c[1] in extra for c in rs[0][2]):
            continue
        defs[n] = rs[0]
    k = [0]

    def ren(e, m):
        if isinstance(e, tuple):
            if e[:1] == ("path",) and len(e[1]) == 1 and e[1][0] in m:
                return ("path", [m[e[1][0]]])
            if e[:1] == ("pvar",) and e[1] in m:
                return ("pvar", m[e[1]])
            return tuple(ren(x, m) for x in e)
        if isinstance(e, list):
            return [ren(x, m) for x in e]
        return e
    out = []
    for n, h, cl in rules.rules:
        if n in defs:
            continue
        ncl = []
        for c in cl:
            if c[0] == "atom" and c[1] in defs:
                _, dh, dcl = defs[c[1]]
                k[0] += 1
                names = {}

                def vars_of(e):
                    if isinstance(e, tuple):
                        if e[:1] == ("path",) and len(e[1]) == 1 and e[1][0][:1].islower():
                            names.setdefault(e[1][0], f"u{k[0]}_{e[1][0]}")
                        elif e[:1] == ("pvar",):
                            names.setdefault(e[1], f"u{k[0]}_{e[1]}")
                        else:
                            for x in e:
                                vars_of(x)
                    elif isinstance(e, list):
                        for x in e:
                            vars_of(x)
                for d in dcl:
                    vars_of(d[2] if d[0] in ("atom", "not") else list(d[1:]))
                m = dict(names)
                post = []
                for formal, actual in zip(dh, c[2]):
                    if formal[0] == "path" and len(formal[1]) == 1 and actual[0] == "path" and len(actual[1]) == 1 and actual[1][0] != "_":
                        m[formal[1][0]] = actual[1][0]
                    elif actual == ("path", ["_"]):
                        pass
                    else:
                        post.append(("cond", ("bin", "==", ren(formal, m), actual)))
                ncl += [(d[0], d[1], ren(d[2], m)) if d[0] in ("atom", "not") else (d[0],) + tuple(ren(x, m) for x in d[1:]) for d in dcl] + post
            else:
                ncl.append(c)
        out.append((n, h, ncl))
    rules.rules = out
    for n in defs:
        rules.rel.pop(n, None)
    return rules


def find(repo):
    for f in sorted(glob.glob(os.path.join(repo, "constraint-solver/src/**/*.rs"), recursive=True)):
        s = open(f).read()
        if re.search(r"\bcrepe!\s*\{", s):
            return Rules(s, os.path.relpath(f, repo))
    return None


def compare(base, cur):
    """-> list of (key, text)"""
    out = []
    unfold(cur, [n for n, (io, _) in cur.rel.items() if n not in base.rel and not io])
    unfold(base, [n for n, (io, _) in base.rel.items() if n not in cur.rel and not io])
    for n, (io, k) in base.rel.items():
        if cur.rel.get(n) != (io, k):
            out.append((f"relation {n}", f"relation {n} was {io or 'derived'}/{k}, now {cur.rel.get(n)}"))
    known = set(base.fns)
    nb = [Norm(base, r, known) for r in base.rules]
    nc = [Norm(cur, r, known) for r in cur.rules]
    left = list(range(len(nc)))
    un = []
    for a in nb:
        hit = next((j for j in left if match(a, nc[j]) is None), None)
        if hit is None:
            un.append(a)
        else:
            left.remove(hit)
    for a in un:
        cand = [j for j in left if nc[j].head == a.head]
        why = match(a, nc[cand[0]]) if cand else "it is gone"
        key = f"{a.head} <- " + ", ".join(("!" if g else "") + n for n, g, _ in a.atoms)
        if cand:
            left.remove(cand[0])
        out.append((key, why))
    for j in left:
        out.append((f"new {nc[j].head} <- " + ", ".join(n for n, _, _ in nc[j].atoms), "a rule that is not among the confirmed ones"))
    return out, len(nb)
