#!/usr/bin/env python3
"""Writes MANIFEST.json from the rule modules present in ffstatic/rules."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "N01": "Truth depends on runtime field values and on probability over random points; no static argument in reach bounds it.",
    "N02": "Arithmetic exactness of CRT/rational reconstruction over unbounded integers: a numeric theorem about values, not about program structure; needs proof or execution.",
    "N03": "Exactness of interpolation/solvers is a numeric theorem over runtime values and degrees; no dataflow or type-level argument in reach decides it.",
    "N04": "Termination depends on the black box's degree structure and random values; not decidable by static analysis here.",
    "N05": "Equality of printed strings and values is a property of runtime strings through a hand-written grammar (including Horner recursion); static analysis cannot relate them.",
    "N06": "Sum over runtime tables of strings and coefficients; the equality concerns data read at run time.",
}
checks, na, have = [], [], set()
for i in range(1, 24):
    pid = "C%02d" % i
    f = os.path.join(V, "ffstatic", "rules", pid.lower() + ".py")
    if os.path.exists(f):
        env = {}
        for s in ast.parse(open(f).read()).body:
            if isinstance(s, ast.Assign) and s.targets[0].id in ("TECHNIQUE", "NOTE"):
                env[s.targets[0].id] = ast.literal_eval(s.value)
        if "TECHNIQUE" not in env:
            continue
        have.add(pid)
        checks.append(dict(property=pid, quick_cmd="python3 check.py %s quick" % pid, thorough_cmd="python3 check.py %s thorough" % pid,
                           technique=env["TECHNIQUE"], level="other", level_note=env["NOTE"]))
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p not in have:
        na.append(dict(property=p, reason=NA.get(p, "Check not built yet.")))
json.dump(dict(version=1, setup_cmd="bash tools/ffdump/build.sh", checks=checks, not_applicable=na,
               notes="All checks are static: ffdump (clang LibTooling) resolves /repo's current sources, ffstatic analyses the result; nothing of FireFly is executed. No hooks in /repo."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
