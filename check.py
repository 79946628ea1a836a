#!/usr/bin/env python3
"""check.py <property>: decide one property statically on /repo's working tree."""
import importlib, json, os, sys, time, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "sa"))
sys.setrecursionlimit(100000)
sys.dont_write_bytecode = True


def main(prop):
    import extract, core, assign
    from prog import Program
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        facts = extract.extract()
    except extract.ExtractError as x:
        print(f"ERROR property={prop}: cannot extract the program: {x}")
        return 2
    prog = Program(facts)
    ctx = core.Ctx(prog, prop, tier)
    keys = assign.contracts_of(prop, ctx.contracts)
    rules = []
    try:
        mod = importlib.import_module("rules." + prop.lower())
        rules = mod.RULES
    except ModuleNotFoundError as x:
        if x.name not in ("rules." + prop.lower(), "rules"):
            raise
    common = importlib.import_module("rules.common")
    rules = list(rules) + common.RULES + (common.SERDE if prop == "C15" else [])
    for r in rules:
        try:
            r(ctx)
        except Exception:
            ctx.ob(r.__name__, "analysis", False, "the rule could not be evaluated on this tree:\n" + traceback.format_exc()[-1500:])
    ctx.check_contracts(keys)
    if not ctx.obligations:
        print(f"ERROR property={prop}: nothing analysed")
        return 2

    known = json.load(open(os.path.join(VERIF, "known_findings.json")))
    kf = {(k["property"], k["key"]): k for k in known if k.get("status") == "known"}
    bad = []
    for f in ctx.findings:
        e = kf.get((prop, f["key"]))
        if e:
            print(f"KNOWN-FINDING: property={prop} {f['key']}: {e['what']}")
        else:
            bad.append(f)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rep = os.path.join(VERIF, "evidence", prop + ".report.txt")
    with open(rep, "w") as fh:
        fh.write(f"{prop}: {len(ctx.obligations)} obligations, {len(bad)} violated\n")
        for f in bad:
            fh.write(f"\nVIOLATED {f['key']}\n  rule: {f['rule']}\n  at: {f['where']}\n  {f['text']}\n")
        fh.write("\nnotes:\n" + "".join("  " + n + "\n" for n in ctx.notes))
    byrule = {}
    for r, i, ok in ctx.obligations:
        d = byrule.setdefault(r, {"checked": 0, "discharged": 0})
        d["checked"] += 1
        d["discharged"] += ok
    samples = []
    for r in byrule:
        samples += [f"{r}: {i}" for q, i, _ in ctx.obligations if q == r][:6]
    evd = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static analysis of the type-checked MIR of every library function of the nine crates that build offline. "
                           "Each obligation is one rule instance (call site, function, type or path) or one behaviour contract: the gated summary "
                           "(return value, effects with path conditions, panics, order of conflicting accesses) of a function, compared as normalised "
                           "terms with the summary confirmed by reading.",
            "functions_in_program": prog.nfun, "adts_in_program": len(prog.adts),
            "obligations": len(ctx.obligations), "discharged": sum(1 for o in ctx.obligations if o[2]),
            "by_rule": byrule, "rule_functions": [r.__name__ + ": " + (r.__doc__ or "").strip().split("\n")[0] for r in rules],
            "contracts_assigned": len(keys), **ctx.counts, "notes": ctx.notes[:40], "samples": samples[:40],
        },
        "assumptions": ["summaries abstract: arithmetic is uninterpreted beyond ring normalisation, opaque calls are deterministic in their operands",
                        "std and third-party functions behave as their transfer functions in sa/known.py say, or are uninterpreted"],
        "wall_s": round(time.time() - t0, 2), "violations": len(bad),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(evd, fh, indent=1)
    print(f"{prop}: {len(ctx.obligations)} obligations, {len(bad)} violated, {len(ctx.notes)} notes, {time.time()-t0:.1f}s")
    for n in ctx.notes[:20]:
        print("note:", n[:300])
    for f in bad[:20]:
        print(f"  {f['key'][:200]} [{f['where']}]\n    " + f["text"][:1500].replace("\n", "\n    "))
    if bad:
        print(f"VIOLATION property={prop} replay={rep}")
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1])
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
