#!/usr/bin/env python3
"""mutate.py N SEED WORKERS [file-regex]: random source mutants in scratch copies, each
type-checked and compared with the contracts.  Prints survivors (compiling, no diff)."""
import os, random, re, shutil, subprocess, sys, json, multiprocessing as mp
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
MEMBERS = ["number", "constraint-solver", "expression", "riscv-elf", "riscv-types", "isa-utils", "syscalls", "autoprecompiles", "openvm-bus-interaction-handler"]
OPS = [(r" && ", " || "), (r" \|\| ", " && "), (r" == ", " != "), (r" != ", " == "), (r" <= ", " < "), (r" < (?=\w)", " <= "), (r" >= ", " > "), (r" > (?=\w)", " >= "),
       (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<![\w.])(\d+)(?![\w.])", lambda m: str(int(m.group(1)) + 1)),
       (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
       (r"\.rev\(\)", ""), (r"\.sorted\(\)", ""), (r"\.skip\(1\)", ""), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\.is_empty\(\)", ".is_empty().not()"),
       (r"if !", "if "), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r" \+= ", " -= "), (r" && [^{]*(?= \{$)", ""), (r" \|\| [^{]*(?= \{$)", ""), (r"^\s*&& .*(?<!\{)$", ""), (r"^\s*\|\| .*(?<!\{)$", ""), (r" if [^=]*(?= =>)", ""),
       (r"^\s*\.(filter|filter_map|map|take|skip|chain|sorted\w*|rev|unique|take_while|skip_while|unwrap_or)\(.*\)$", ""), (r"\.unique\(\)", ""), (r"\.dedup\(\)", ""),
       (r"\.cloned\(\)\.filter\([^()]*\)", ".cloned()"), (r"\.conjunction\(", ".disjunction("), (r"\.is_known_zero\(\)", ".is_known_one()"), (r"\.is_zero\(\)", ".is_one()"),
       (r"filter\(\|([^|]*)\| ([^)]*)\)$", r"filter(|\1| !(\2))"), (r"\.0\b", ".1"), (r"\.1\b", ".0"), (r"Some\((\w+)\) =>", r"Some(\1) if false =>"), (r"\.left\b", ".right"), (r"\blhs\b", "rhs"),
       (r"saturating_sub", "wrapping_sub"), (r"\.\.=", ".."), (r"_mut\(\)\.skip", "_mut()")]


def sites():
    out = []
    for m in MEMBERS:
        for root, _, fs in os.walk(os.path.join(REPO, m, "src")):
            for f in sorted(fs):
                if not f.endswith(".rs") or f in ("test_utils.rs", "tests.rs") or "/bin" in root:
                    continue
                p = os.path.relpath(os.path.join(root, f), REPO)
                ls = open(os.path.join(REPO, p)).read().split("\n")
                depth = None
                for i, l in enumerate(ls):
                    s = l.strip()
                    if s.startswith("#[cfg(test)]"):
                        break
                    if s.startswith(("//", "#[", "#!", "use ", "log::", "tracing", "debug!", "info!", "println", "where", "impl", "pub fn", "fn ", "assert", "debug_assert", "type ", "pub struct", "struct", "pub enum", "pub trait", "trait", "const", "write!", "format!", "\"")) or "=> {\"" in s:
                        continue
                    if re.match(r"^(pub )?[\w']+: [A-Z&'].*\+ [A-Z'].*$", s) or "impl " in s or " dyn " in s:
                        continue
                    code = l.split("//")[0]
                    if '"' in code or "crepe" in code:
                        continue
                    for pat, rep in OPS:
                        for mm in re.finditer(pat, code):
                            new = code[:mm.start()] + (rep(mm) if callable(rep) else mm.expand(rep)) + code[mm.end():]
                            if new != code:
                                out.append((p, i, l, new))
                    # delete an early exit
                    if re.match(r"^\s*if .*\{$", code) and i + 2 < len(ls) and re.match(r"^\s*(return.*|continue|break);$", ls[i + 1]) and ls[i + 2].strip() == "}":
                        out.append((p, i, l, re.sub(r"if .*\{", "if false {", code)))
                        out.append((p, i, l, re.sub(r"if .*\{", "if false {", code)))
                    # exchange two arguments
                    for mm in re.finditer(r"\(([&\w.]+), ([&\w.]+)\)", code):
                        out.append((p, i, l, code[:mm.start()] + f"({mm.group(2)}, {mm.group(1)})" + code[mm.end():]))
                    # delete a statement
                    if re.match(r"^\s*[\w.]+(\.\w+)*\([^;]*\);$", code) and not s.startswith(("return", "let", "panic")):
                        out.append((p, i, l, re.sub(r"\S.*", "", code)))
    return out


def work(a):
    wid, jobs = a
    root, cache = f"/tmp/mut/{wid}/repo", f"/tmp/mut/{wid}/cache"
    os.makedirs(f"/tmp/mut/{wid}", exist_ok=True)
    if not os.path.exists(root):
        subprocess.run(["cp", "-a", REPO, root], check=True)
        subprocess.run(["rm", "-rf", root + "/target", root + "/.git"])
        os.makedirs(cache)
        for d in ("driver", "target"):
            subprocess.run(["cp", "-a", f"{V}/.cache/{d}", f"{cache}/{d}"], check=True)
    res = []
    for (p, i, l, new) in jobs:
        f = os.path.join(root, p)
        src = open(os.path.join(REPO, p)).read().split("\n")
        assert src[i] == l
        src[i] = new
        open(f, "w").write("\n".join(src))
        e = dict(os.environ, VERIF_REPO=root, VERIF_CACHE=cache)
        r = subprocess.run([sys.executable, "/tmp/mut/v/dev/runall.py", "-v"], env=e, capture_output=True, text=True)
        shutil.copyfile(os.path.join(REPO, p), f)
        o = r.stdout
        st = "NOCOMPILE" if o.startswith("NOCOMPILE") else "DETECT" if o.startswith("FIRED") else "SURVIVE" if o.startswith("QUIET") else "CRASH"
        if st == "SURVIVE" and "undecided" in o:
            st = "UNDECIDED"
        line = f"{st} {p}:{i+1}\n   - {l.strip()}\n   + {new.strip()}" + ("\n" + r.stderr[-400:] if st == "CRASH" else "")
        print(line, flush=True)
        res.append(st)
    return res


if __name__ == "__main__":
    n, seed, w = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
    ss = [s for s in sites() if len(sys.argv) < 5 or re.search(sys.argv[4], s[0])]
    print(len(ss), "sites")
    random.seed(seed)
    random.shuffle(ss)
    seen, pick = set(), []
    for s in ss:
        if (s[0], s[1]) not in seen:
            seen.add((s[0], s[1]))
            pick.append(s)
    pick = pick[:n]
    os.makedirs("/tmp/mut", exist_ok=True)
    subprocess.run(["rm", "-rf", "/tmp/mut/v"])
    os.makedirs("/tmp/mut/v")
    for d in ("sa", "dev", "driver", "check.py", "known_findings.json", "properties.jsonl"):
        subprocess.run(["cp", "-a", V + "/" + d, "/tmp/mut/v/" + d], check=True)
    with mp.Pool(w) as pool:
        rs = sum(pool.map(work, [(k, pick[k::w]) for k in range(w)], chunksize=1), [])
    print({k: rs.count(k) for k in set(rs)})
