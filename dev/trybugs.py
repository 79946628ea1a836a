#!/usr/bin/env python3
"""trybugs.py BUGS.py [WORKERS] [id ...]: apply every planted change of BUGS.py on its own
to a scratch copy, type-check, run all checks, and print which fire.
BUGS.py: BUGS = {id: [(file, old, new), ...]}"""
import os, re, subprocess, sys, shutil, multiprocessing as mp
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def work(a):
    w, items = a
    d, c = f"/tmp/tb{w}", f"/tmp/tbc{w}"
    os.makedirs(c, exist_ok=True)
    out = []
    for n, es in items:
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.run(f"cd /repo && tar c --exclude=./target --exclude=./.git . | tar x -C {d}", shell=True, check=True)
        for x in ("driver", "target"):
            if not os.path.exists(f"{c}/{x}"):
                subprocess.run(["cp", "-a", f"{V}/.cache/{x}", f"{c}/{x}"], check=True)
        bad = None
        for f, o, r in es:
            s = open(f"{d}/{f}").read()
            if s.count(o) < 1:
                bad = f"NOMATCH {f}: {o[:60]!r}"
                break
            open(f"{d}/{f}", "w").write(s.replace(o, r, 1))
        if bad is None:
            p = subprocess.run(["python3", V + "/dev/runall.py", "-v"], env=dict(os.environ, VERIF_REPO=d, VERIF_CACHE=c), capture_output=True, text=True)
            bad = (p.stdout + p.stderr)
        l = bad.strip().split("\n")
        print(n, l[0][:150] if l[0].startswith(("FIRED", "QUIET", "NOMATCH")) else "ERROR " + bad[-300:], flush=True)
        for x in l[1:]:
            if "note" in x and "undecided" in x or l[0].startswith("FIRED") and ("differs" in x or "rule" in x) and len(out) < 0:
                print("      ", x[:170], flush=True)
    shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    W = int(sys.argv[2]) if len(sys.argv) > 2 else 3
    sel = sys.argv[3:]
    items = [x for x in ns["BUGS"].items() if not sel or x[0] in sel]
    with mp.Pool(W) as p:
        p.map(work, [(i, items[i::W]) for i in range(W)], chunksize=1)
