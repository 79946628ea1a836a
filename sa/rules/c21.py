"""C21: the datalog rules are the confirmed ones."""
import os, sys
import crepe, extract
BASE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "base_rules.rs.txt")


def datalog_rules(ctx):
    """Every rule of the rule engine equals a confirmed rule up to renaming, clause order, helper and relation extraction."""
    base = crepe.Rules(open(BASE).read(), "confirmed")
    try:
        cur = crepe.find(extract.REPO)
    except crepe.ParseError as x:
        ctx.note(f"datalog rules use syntax outside the parsed subset: {x}")
        ctx.count("datalog_undecided", 1)
        return
    if not ctx.need("datalog_rules", "crepe! block", cur):
        return
    try:
        diffs, n = crepe.compare(base, cur)
    except crepe.Unknown as x:
        ctx.note(f"datalog rules use an expression outside the evaluated subset: {x}")
        ctx.count("datalog_undecided", 1)
        return
    bad = {k for k, _ in diffs}
    ctx.count("datalog_rules", n)
    for r in base.rules:
        ctx.ob("datalog_rules", f"{r[0]} <- " + ", ".join(c[1] if c[0] in ("atom", "not") else c[0] for c in r[2])[:200], True)
    for k, why in diffs:
        ctx.ob("datalog_rules", k, False, "rule differs from the confirmed one: " + why, cur.where)


RULES = [datalog_rules]
