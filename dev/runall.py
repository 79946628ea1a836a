#!/usr/bin/env python3
"""Development aid: run every property's rules and contracts in one process on VERIF_REPO; print what fires."""
import importlib, os, sys, traceback
V = os.environ.get("VERIF_SA") or os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sa")
sys.path.insert(0, V)
sys.setrecursionlimit(100000)
sys.dont_write_bytecode = True
import extract, core, assign, contract, summ
from prog import Program
try:
    facts = sys.argv[sys.argv.index("-facts") + 1] if "-facts" in sys.argv else extract.extract()
except extract.ExtractError as x:
    print("NOCOMPILE", str(x)[-1500:] if "-v" in sys.argv else "")
    sys.exit(3)
prog = Program(facts)
ctx0 = core.Ctx(prog, "ALL", "quick")
ctx0.check_contracts(list(ctx0.contracts))
bad = {f["key"]: f for f in ctx0.findings}
notes = list(ctx0.notes)
fired = {}
for p in assign.CONTRACTS:
    ctx = core.Ctx(prog, p, "quick")
    ctx._ids = ctx0._ids
    common = importlib.import_module("rules.common")
    rules = common.RULES + (common.SERDE if p == "C15" else [])
    try:
        rules = importlib.import_module("rules." + p.lower()).RULES + rules
    except ModuleNotFoundError as x:
        if x.name not in ("rules." + p.lower(), "rules"):
            raise
    for r in rules:
        try:
            r(ctx)
        except Exception:
            ctx.ob(r.__name__, "analysis", False, traceback.format_exc()[-1500:])
    fs = [f["key"] for f in ctx.findings] + ["behaviour:" + k for k in assign.contracts_of(p, ctx0.contracts) if "behaviour:" + k in bad]
    for f in ctx.findings:
        bad[f["key"]] = f
    if fs:
        fired[p] = fs
    notes += [p + ": " + n for n in ctx.notes]
print("FIRED " + " ".join(sorted(fired)) if fired else "QUIET")
for p in sorted(fired):
    for k in fired[p][:8]:
        print("  ", p, k[:200])
        if "-v" in sys.argv:
            print("      ", bad[k]["text"][:1500].replace("\n", "\n       "))
for n in notes[:10]:
    print("   note", n[:200])
sys.stdout.flush()
os._exit(1 if fired else 0)
