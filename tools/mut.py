#!/usr/bin/env python3
"""mut.py <Cxx>[,Cyy] <file> <old> <new> [<file> <old> <new> ...]: runs checks against a scratch copy of /repo with text replaced."""
import os, shutil, subprocess, sys, tempfile
props = sys.argv[1].split(",")
d = tempfile.mkdtemp(prefix="mut")
try:
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s" % d, shell=True)
    a = sys.argv[2:]
    if len(a) == 1:
        subprocess.check_call(["git", "apply", "--unsafe-paths", "--directory=" + d, a[0]], cwd="/")
    else:
        for f, o, n in zip(a[::3], a[1::3], a[2::3]):
            p = os.path.join(d, f)
            s = open(p).read()
            o, n = o.encode().decode("unicode_escape"), n.encode().decode("unicode_escape")
            if o not in s:
                sys.exit("text not found: " + o)
            if s.count(o) > 1:
                print("(%d occurrences, first replaced)" % s.count(o))
            open(p, "w").write(s.replace(o, n, 1))
    for c in props:
        r = subprocess.run([sys.executable, os.path.join(os.path.dirname(__file__), "..", "check.py"), c], env=dict(os.environ, FF_REPO=d), capture_output=True, text=True)
        out = [l for l in r.stdout.splitlines() if not l.startswith(c) and not l.startswith("note")]
        print(c, "rc", r.returncode, "\n".join(out[-12:]), r.stderr[-600:])
finally:
    shutil.rmtree(d)
