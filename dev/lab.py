#!/usr/bin/env python3
"""lab.py collect [workers] | run [workers] [-v] [substr ...]
collect: extract the facts of every refactoring set, every planted-bug entry and
every seed into /tmp/lab/<name> (skips what is there and unchanged).
run: judge all of them with the current sa/ from the stored facts, and list
refactorings that FIRE and bugs that stay QUIET."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LAB = "/tmp/lab"
SNAP = f"/tmp/labsnap{os.getpid()}"  # run: judge with a snapshot of sa/, so that it can be edited meanwhile


def items():
    out = []
    for f in sorted(glob.glob(V + "/dev/refactors/*.py")):
        out.append(("R." + os.path.basename(f)[:-3], "py", f, None))
    for f in sorted(glob.glob(V + "/dev/bugs/*.py")):
        ns = {}
        exec(open(f).read(), ns)
        for k, es in ns["BUGS"].items():
            out.append(("B." + k, "ed", f, es))
        for k, es in ns.get("OK", {}).items():
            out.append(("R." + k, "ed", f, es))
    for f in sorted(glob.glob(V + "/seeded/*/patch.diff")):
        out.append(("S." + f.split("/")[-2], "diff", f, None))
    return out


def key(it):
    return hashlib.sha256((open(it[2]).read() if it[1] != "ed" else repr(it[3])).encode()).hexdigest()


def collect(a):
    w, its = a
    d, c = f"/tmp/tb{w}", f"/tmp/tbc{w}"
    os.makedirs(c, exist_ok=True)
    for n, kind, f, es in its:
        it = (n, kind, f, es)
        subprocess.run(f"mkdir -p {d} && cd /repo && rsync -a --delete --exclude=/target --exclude=/.git ./ {d}/" if shutil.which("rsync") else
                       f"rm -rf {d} && mkdir {d} && cd /repo && tar c --exclude=./target --exclude=./.git . | tar x -C {d}", shell=True, check=True)
        for x in ("driver", "target"):
            if not os.path.exists(f"{c}/{x}"):
                subprocess.run(["cp", "-a", f"{V}/.cache/{x}", f"{c}/{x}"], check=True)
        if kind == "py":
            r = subprocess.run(["python3", V + "/dev/apply.py", f, d], capture_output=True, text=True)
            ok = r.returncode == 0
        elif kind == "diff":
            ok = subprocess.run(f"cd {d} && patch -s -p1 < {f}", shell=True).returncode == 0
        else:
            ok = True
            for p, o, r in es:
                s = open(f"{d}/{p}").read()
                if s.count(o) < 1:
                    ok = False
                    print(n, "NOMATCH", p, repr(o[:60]), flush=True)
                    break
                open(f"{d}/{p}", "w").write(s.replace(o, r, 1))
        if not ok:
            print(n, "NOAPPLY", flush=True)
            continue
        r = subprocess.run(["python3", V + "/sa/extract.py"], env=dict(os.environ, VERIF_REPO=d, VERIF_CACHE=c), capture_output=True, text=True)
        m = re.search(r"^(/\S+/facts-\S+)", r.stdout, re.M)
        if not m:
            print(n, "NOCOMPILE", "\n".join(re.findall(r"^error.*\n.*\n.*\n.*\n.*", r.stderr, re.M)[:2])[:700], flush=True)
            continue
        shutil.rmtree(f"{LAB}/{n}", ignore_errors=True)
        shutil.copytree(m.group(1), f"{LAB}/{n}")
        open(f"{LAB}/{n}/KEY", "w").write(key(it))


def run1(n):
    r = subprocess.run(["python3", SNAP + "/dev/runall.py", "-v", "-facts", f"{LAB}/{n}"], capture_output=True, text=True)
    return n, (r.stdout + r.stderr).strip()


if __name__ == "__main__":
    import multiprocessing as mp
    os.makedirs(LAB, exist_ok=True)
    args = [a for a in sys.argv[2:] if not a.startswith("-")]
    W = int(args.pop(0)) if args and args[0].isdigit() else 4
    its = items()
    if sys.argv[1] == "collect":
        its = [i for i in its if not (os.path.exists(f"{LAB}/{i[0]}/KEY") and open(f"{LAB}/{i[0]}/KEY").read() == key(i))]
        with mp.Pool(W) as p:
            p.map(collect, [(w, its[w::W]) for w in range(W)], chunksize=1)
        print(len(its), "collected")
        sys.exit()
    names = [i[0] for i in its if os.path.exists(f"{LAB}/{i[0]}/KEY") and (not args or any(a in i[0] for a in args))]
    t0 = time.time()
    os.makedirs(SNAP, exist_ok=True)
    subprocess.run(f"cp -a {V}/sa {V}/dev {V}/*.json {V}/*.jsonl {SNAP}/", shell=True, check=True)
    nb = nq = nf = 0
    CF = V + "/dev/caught.json"
    caught = json.load(open(CF)) if args and os.path.exists(CF) else {}
    with mp.Pool(W) as p:
        for n, o in p.imap_unordered(run1, names):
            l = o.split("\n")
            fired = l[0].startswith("FIRED")
            if not l[0].startswith(("FIRED", "QUIET")):
                print(n, "ERROR", o[-400:], flush=True)
                continue
            if n[0] != "R":
                caught[n] = sorted(set(re.findall(r"\bC\d\d\b", l[0])))
            if n[0] == "R":
                nf += fired
                if fired or "-v" in sys.argv:
                    print(("FALSE ALARM " if fired else "quiet ") + n, l[0][:100], flush=True)
                    if fired:
                        for x in [y for y in l if "differs" in y or re.match(r"\s+C\d+ ", y)][:8]:
                            print("     ", x.strip()[:260])
            else:
                nb += 1
                nq += not fired
                if not fired or "-v" in sys.argv:
                    print(("missed " if not fired else "caught ") + n, l[0][:100], flush=True)
                    if not fired:
                        for x in l[1:]:
                            if "undecided" in x:
                                print("     ", x.strip()[:150])
    print(f"{len(names)} trees, {nf} false alarms, {nq} of {nb} bugs missed, {time.time()-t0:.0f}s")
    shutil.rmtree(SNAP)
    json.dump(caught, open(CF, "w"), indent=0, sort_keys=True)
