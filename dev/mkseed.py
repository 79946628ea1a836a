#!/usr/bin/env python3
"""mkseed.py ID...: make /verif/seeded/<ID>/ from dev/seeds/<ID>.py (EDITS, META, MAIN, optional FILES) and
confirm it: stable tests pass with the patch, demo passes without and fails with it, and say what the checks report."""
import json, os, re, subprocess as sp, sys, shutil
V = "/verif"
DEMO = '''#!/bin/bash
# run with cwd = the repository; builds a small program against its crates in a scratch directory
set -e
H=$(cd "$(dirname "$0")" && pwd)
R=$PWD
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
mkdir "$D/src"
cp "$H/main.rs" "$D/src/main.rs"
cp "$H/Cargo.lock.txt" "$D/Cargo.lock"
sed "s#@REPO@#$R#g" "$H/Cargo.toml.in" > "$D/Cargo.toml"
export CARGO_TARGET_DIR=$D/target CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=nightly-2025-10-01 CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
cd "$D"
cargo build --offline -q
exec_rc=0
timeout 120 "$D/target/debug/demo" "$D" || exec_rc=$?
exit $exec_rc
'''
DEPS = {"powdr-number": "number", "powdr-constraint-solver": "constraint-solver", "powdr-autoprecompiles": "autoprecompiles", "powdr-riscv-elf": "riscv-elf",
        "powdr-openvm-bus-interaction-handler": "openvm-bus-interaction-handler", "powdr-expression": "expression", "powdr-riscv-types": "riscv-types"}
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2025-10-01", CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_PROFILE_DEV_OPT_LEVEL="3", CARGO_TARGET_DIR="/tmp/sd/target", RUSTC_WRAPPER="")


def sh(c, **k):
    return sp.run(c, shell=True, capture_output=True, text=True, **k)


def fresh():
    sh("mkdir -p /tmp/sd/repo; rsync -a --delete --checksum --exclude /target --exclude /.git /repo/ /tmp/sd/repo/ || (rm -rf /tmp/sd/repo; mkdir /tmp/sd/repo; cd /repo; tar c --exclude=./target --exclude=./.git . | tar x -C /tmp/sd/repo)")
    os.makedirs("/tmp/sd/ws", exist_ok=True)
    sh("cp -n /opt/vp/ws/Cargo.toml /opt/vp/ws/Cargo.lock /tmp/sd/ws/")
    for n in os.listdir("/tmp/sd/repo"):
        if n not in ("Cargo.toml", "Cargo.lock", "target", ".git", ".cargo") and not os.path.islink("/tmp/sd/ws/" + n):
            os.symlink("/tmp/sd/repo/" + n, "/tmp/sd/ws/" + n)


def main(i, test=True):
    g = {}
    exec(open(f"{V}/dev/seeds/{i}.py").read(), g)
    d = f"{V}/seeded/{i}"
    os.makedirs(d, exist_ok=True)
    fresh()
    a, b = "/tmp/sd/pa", "/tmp/sd/pb"
    patch = ""
    done = {}
    for f, old, new in g["EDITS"]:
        s = done.get(f) or open("/repo/" + f).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        done[f] = s.replace(old, new)
    for f, s in done.items():
        for x, t in ((a, open("/repo/" + f).read()), (b, s)):
            os.makedirs(os.path.dirname(f"{x}/{f}"), exist_ok=True)
            open(f"{x}/{f}", "w").write(t)
        o = sh(f"diff -u --label a/{f} --label b/{f} {a}/{f} {b}/{f}").stdout
        patch += f"diff --git a/{f} b/{f}\n" + o
    open(d + "/patch.diff", "w").write(patch)
    r = sh(f"git -C /repo apply --check {d}/patch.diff")
    assert r.returncode == 0, r.stderr
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.rs", "w").write(g["MAIN"])
    deps = [k for k in DEPS if k.replace("-", "_") in g["MAIN"]]
    open(d + "/Cargo.toml.in", "w").write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n\n[dependencies]\n' + "".join(f'{k} = {{ path = "@REPO@/{DEPS[k]}" }}\n' for k in deps)
                                        + g.get("EXTRA", "") + "\n[workspace]\n")
    shutil.copy(f"{V}/driver/ws.Cargo.lock", d + "/Cargo.lock.txt")
    json.dump(g["META"], open(d + "/meta.json", "w"), indent=1)
    r0 = sh(f"bash {d}/demo.sh", cwd="/tmp/sd/repo")
    sh(f"patch -p1 < {d}/patch.diff", cwd="/tmp/sd/repo")
    r1 = sh(f"bash {d}/demo.sh", cwd="/tmp/sd/repo")
    print(i, "demo clean", r0.returncode, "patched", r1.returncode, "|", (r0.stdout + r0.stderr)[-1500:] if r0.returncode else (r1.stdout + r1.stderr).strip()[-300:], flush=True)
    if r0.returncode or not r1.returncode or "could not compile" in r1.stderr:
        print("   BAD DEMO"); return
    if test:
        r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/sd/log 2>&1", cwd="/tmp/sd/ws", env=ENV)
        sh("python3 /opt/vp/results.py /tmp/sd/out.json cargo:/tmp/sd/log")
        base = json.load(open("/opt/vp/BASELINE.json"))
        out = json.load(open("/tmp/sd/out.json"))
        stable = base if isinstance(base, list) else next(v for k, v in base.items() if isinstance(v, list) and len(v) > 100)
        passed = set(out.get("passed", []))
        lost = [t for t in stable if t not in passed]
        print("   tests lost:", len(lost), lost[:5], flush=True)
    e = dict(os.environ, VERIF_REPO="/tmp/sd/repo", VERIF_CACHE="/tmp/rfc")
    sh("mkdir -p /tmp/rfc; for d in driver target; do [ -e /tmp/rfc/$d ] || cp -a /verif/.cache/$d /tmp/rfc/$d; done")
    r = sh(f"python3 {V}/dev/runall.py", env=e)
    f = r.stdout.split("\n")[0]
    print("   checks:", f, "| own:", g["META"]["property"] in f.split(), flush=True)


for i in [a for a in sys.argv[1:] if not a.startswith("-")]:
    main(i, "-n" not in sys.argv)
