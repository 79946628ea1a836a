"""Development aid: apply a list of (file, old, new) edits to a scratch copy."""
import sys, importlib.util, os
spec = importlib.util.spec_from_file_location("m", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
root = sys.argv[2]
bad = 0
for i, (f, old, new) in enumerate(m.EDITS):
    p = os.path.join(root, f)
    s = open(p).read()
    if s.count(old) == 0:
        s = "".join(l for l in s.splitlines(True) if not l.strip().startswith("//"))
    if s.count(old) != 1:
        print("EDIT", i, f, "matches", s.count(old), repr(old[:60])); bad += 1; continue
    open(p, "w").write(s.replace(old, new))
import re
for f, rx, to in getattr(m, "SUBS", []):
    p = os.path.join(root, f)
    for q in ([os.path.join(d, n) for d, _, ns in os.walk(p) for n in ns if n.endswith(".rs")] if os.path.isdir(p) else [p]):
        s = open(q).read(); t = re.sub(rx, to, s)
        if s != t: open(q, "w").write(t)
sys.exit(bad)
