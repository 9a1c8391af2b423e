#!/usr/bin/env python3
"""mkpatch.py <seed id> <file> <old> <new> [...]: writes seeded/<id>/patch.diff from text replacements against /repo."""
import os, subprocess, sys, tempfile
i, a = sys.argv[1], sys.argv[2:]
out = ""
files = {}
for f, o, n in zip(a[::3], a[1::3], a[2::3]):
    s = files.get(f) or open("/repo/" + f).read()
    if s.count(o) != 1:
        sys.exit("%d occurrences of %r" % (s.count(o), o))
    files[f] = s.replace(o, n)
for f, s in files.items():
    with tempfile.NamedTemporaryFile("w", delete=False) as t:
        t.write(s)
    out += subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, "/repo/" + f, t.name], capture_output=True, text=True).stdout
    os.unlink(t.name)
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded", i)
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(out)
