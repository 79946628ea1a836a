"""Check context: obligations, findings, contract comparison."""
import json, os, re, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import contract, items, summ
from prog import Program

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, prog, prop, tier):
        self.prog, self.prop, self.tier = prog, prop, tier
        self.obligations = []      # (rule, instance, ok)
        self.findings = []         # dict(key, rule, where, text)
        self.notes = []
        self.counts = {}
        self._ids = None
        self.contracts = contract.load()
        self.knownkeys = {v["key"] for v in self.contracts.values()}

    # ---- obligations
    def ob(self, rule, instance, ok, text="", where=""):
        """One discharged or failed obligation.  The key carries no line number."""
        self.obligations.append((rule, instance, bool(ok)))
        if not ok:
            self.findings.append({"key": f"{rule}:{instance}", "rule": rule, "where": where, "text": text})
        return bool(ok)

    def need(self, rule, instance, thing, text="anchor not found: the rule cannot be established"):
        """An anchor the rule needs; missing anchors fail closed."""
        if thing is None or thing == [] or thing is False:
            self.ob(rule, "anchor " + instance, False, text)
            return False
        return True

    def count(self, name, n):
        self.counts[name] = self.counts.get(name, 0) + n

    def note(self, s):
        self.notes.append(s)

    # ---- summaries
    @property
    def ids(self):
        if self._ids is None:
            self._ids = contract.cids(self.prog)
        return self._ids

    @property
    def items(self):
        if getattr(self.prog, "_items", None) is None:
            self.prog._items = items.collect(self.prog)
        return self.prog._items

    def summary(self, b):
        return contract.summarise(self.prog, b, self.knownkeys)

    # ---- contracts
    def check_contracts(self, keys):
        for k in keys:
            c = self.contracts[k]
            b = self.ids.get(k)
            if b is None:
                self.missing(k, c)
                continue
            where = f"{b.file}:{b.line} {b.key}"
            try:
                s = self.summary(b)
                df = contract.compare(summ.load(c), s.raw)
            except Exception as x:
                self.note(f"contract {k}: not comparable ({type(x).__name__})")
                self.count("contracts_undecided", 1)
                continue
            self.count("contracts_compared", 1)
            if df is None:
                self.ob("behaviour", k, True)
                continue
            why = contract.judged(self.contracts, self.prog, c, s, df)
            if not why:
                self.note(f"contract {k}: the summary differs, but with no evidence that the behaviour does: undecided")
                self.count("contracts_undecided", 1)
                continue
            lines = []
            for x, y in contract.explain(df):
                lines.append("   confirmed: " + str(x)[:700])
                lines.append("   now:       " + str(y)[:700])
            self.ob("behaviour", k, False, "behaviour summary differs from the confirmed one (" + "; ".join(why[:6]) + "):\n" + "\n".join(lines), where)

    def missing(self, k, c):
        """A function under contract is gone.  Its callers are compared with it
        inlined; what is lost is only a trait method whose default now applies."""
        parts = k.split("|")
        if len(parts) >= 4 and parts[2]:
            tr, name = parts[2], parts[3]
            for b in self.prog.bodies.values():
                td = getattr(b, "trait_default", None)
                if td and td.split("::")[-1] == tr and b.name == name:
                    self.ob("behaviour", k, False, f"the implementation of {tr}::{name} for {parts[1]} is gone: the trait's default now applies", c["file"])
                    return
        self.note(f"contract {k}: function no longer exists under this name")
        self.count("contracts_gone", 1)
