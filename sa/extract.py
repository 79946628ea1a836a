"""Extract MIR facts of /repo's current working tree (never runs the analysed code).

The nine crates that build offline are type-checked by `cargo +nightly check`
through a shadow workspace of symlinks, with our rustc driver as the workspace
wrapper; the driver writes one JSON file per crate.  Facts are cached under a
hash of every source file, so checks in one sandbox share one extraction.
"""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE") or os.path.join(VERIF, ".cache")
MEMBERS = ["number", "constraint-solver", "expression", "riscv-elf", "riscv-types",
           "isa-utils", "syscalls", "autoprecompiles", "openvm-bus-interaction-handler"]
CRATES = ["powdr_number", "powdr_constraint_solver", "powdr_expression", "powdr_riscv_elf",
          "powdr_riscv_types", "powdr_isa_utils", "powdr_syscalls", "powdr_autoprecompiles",
          "powdr_openvm_bus_interaction_handler"]


class ExtractError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR",
              "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET", "RUST_LOG"):
        e.pop(k, None)
    e["RUSTUP_AUTO_INSTALL"] = "0"
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def source_hash():
    h = hashlib.sha256()
    files = []
    for m in MEMBERS:
        for root, dirs, fs in os.walk(os.path.join(REPO, m)):
            dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml")):
                    files.append(os.path.join(root, f))
    files += [os.path.join(REPO, "Cargo.toml")]
    for f in glob.glob(os.path.join(VERIF, "driver", "src", "*.rs")):
        files.append(f)
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:24]


def run(cmd, cwd, e, what, timeout=800):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    if r.returncode != 0:
        raise ExtractError(f"{what} failed:\n{r.stdout[-6000:]}")
    return r.stdout


def build_driver(e):
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(VERIF, "driver", "src", "*.rs"))):
        h.update(open(f, "rb").read())
    stamp = os.path.join(CACHE, "driver", "stamp-" + h.hexdigest()[:16])
    exe = os.path.join(CACHE, "driver", "debug", "mirfacts")
    if not (os.path.exists(stamp) and os.path.exists(exe)):
        e2 = dict(e, CARGO_TARGET_DIR=os.path.join(CACHE, "driver"))
        run(["cargo", "build", "--offline"], os.path.join(VERIF, "driver"), e2, "building the MIR driver")
        open(stamp, "w").close()
    return exe


def make_ws():
    """/repo/Cargo.toml with only the member list filtered, beside symlinks into /repo."""
    ws = os.path.join(CACHE, "ws")
    os.makedirs(ws, exist_ok=True)
    skip = {"Cargo.toml", "Cargo.lock", "target", ".git", ".cargo"}
    want = {n for n in os.listdir(REPO) if n not in skip}
    for n in os.listdir(ws):
        p = os.path.join(ws, n)
        if os.path.islink(p) and (n not in want or os.readlink(p) != os.path.join(REPO, n)):
            os.unlink(p)
    for n in want:
        p = os.path.join(ws, n)
        if not os.path.islink(p):
            os.symlink(os.path.join(REPO, n), p)
    toml = open(os.path.join(REPO, "Cargo.toml")).read()
    members = "members = [\n" + "".join(f'  "{m}",\n' for m in MEMBERS) + "]"
    toml, n = re.subn(r"(?ms)^members\s*=\s*\[.*?\]", members, toml, count=1)
    if n != 1:
        raise ExtractError("no members table in Cargo.toml")
    with open(os.path.join(ws, "Cargo.toml"), "w") as f:
        f.write(toml)
    for lock in ("/opt/vp/ws/Cargo.lock", os.path.join(VERIF, "driver", "ws.Cargo.lock")):
        if os.path.exists(lock):
            shutil.copyfile(lock, os.path.join(ws, "Cargo.lock"))
            break
    return ws


def extract(verbose=False):
    """Returns the facts directory for the current tree."""
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        h = source_hash()
        out = os.path.join(CACHE, "facts-" + h)
        if os.path.exists(os.path.join(out, "DONE")):
            return out
        e = env()
        exe = build_driver(e)
        ws = make_ws()
        old = sorted(glob.glob(os.path.join(CACHE, "facts-*")), key=os.path.getmtime)
        for d in old[:-8] + [out]:
            shutil.rmtree(d, ignore_errors=True)
        os.makedirs(out)
        tgt = os.path.join(CACHE, "target")
        # cargo's freshness cache would skip the wrapper: forget the workspace crates
        for pat in (".fingerprint", "build", "deps", "incremental"):
            for d in glob.glob(os.path.join(tgt, "debug", pat, "*powdr[-_]*")):
                shutil.rmtree(d, ignore_errors=True) if os.path.isdir(d) else os.unlink(d)
        sysroot = run(["rustc", "--print", "sysroot"], "/", e, "rustc").strip()
        e2 = dict(e, CARGO_TARGET_DIR=tgt, RUSTC_WORKSPACE_WRAPPER=exe, MIRFACTS_OUT=out,
                  LD_LIBRARY_PATH=sysroot + "/lib")
        run(["cargo", "check", "--workspace", "--lib", "--offline"], ws, e2, "type-checking /repo")
        for c in CRATES:
            if not os.path.exists(os.path.join(out, c + ".json")):
                raise ExtractError(f"no facts for crate {c}")
        open(os.path.join(out, "DONE"), "w").close()
        return out
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


if __name__ == "__main__":
    t = time.time()
    print(extract(), f"{time.time()-t:.1f}s")
