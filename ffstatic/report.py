"""Obligations, findings, evidence and exit codes of a check."""
import json, os, sys, time, traceback
from . import dump as D
from .core import AnalysisError

VERIF = D.VERIF
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


def known_findings():
    """finding: property=<id> key=<key> | <description>"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding:"):
                head, _, desc = line[len("finding:"):].partition("|")
                prop = head.split("property=")[1].split()[0]
                key = head.split("key=", 1)[1].strip()
                out[(prop, key)] = desc.strip()
    return out


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.counts = {}
        self.samples = {}
        self.viol = {}
        self.rules = {}
        self.assume = []
        self.notes = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def rule(self, rid, text):
        self.rules[rid] = text
        self.counts.setdefault(rid, [0, 0])

    def ok(self, rid, what=None):
        c = self.counts.setdefault(rid, [0, 0])
        c[0] += 1
        c[1] += 1
        s = self.samples.setdefault(rid, [])
        if what and len(s) < 6:
            s.append(str(what))

    def bad(self, rid, key, where, msg):
        """one violated obligation; key identifies the site without line numbers"""
        c = self.counts.setdefault(rid, [0, 0])
        c[0] += 1
        k = "%s:%s" % (rid, key)
        self.viol.setdefault(k, dict(rule=rid, key=k, where=where, msg=msg))

    def check(self, cond, rid, key, where, msg, what=None):
        if cond:
            self.ok(rid, what or "%s [%s]" % (key, where))
        else:
            self.bad(rid, key, where, msg)
        return cond

    def need(self, rid, n, what):
        """an enumeration that found nothing decides nothing"""
        if not n:
            raise AnalysisError("rule %s: nothing to analyse (%s)" % (rid, what))

    def n(self, rid):
        return self.counts.get(rid, [0, 0])[0]


def run(prop, fn, tier):
    t0 = time.time()
    ctx = Ctx(prop, tier)
    try:
        fn(ctx)
        if not any(c[0] for c in ctx.counts.values()):
            raise AnalysisError("no obligation was generated")
    except AnalysisError as e:
        print("ERROR property=%s %s" % (prop, e))
        write(ctx, t0, error=str(e))
        return 3
    except Exception:
        traceback.print_exc()
        write(ctx, t0, error="internal error")
        return 4
    known = known_findings()
    new = []
    for k, v in sorted(ctx.viol.items()):
        if (prop, k) in known:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, known[(prop, k)]))
        else:
            new.append(v)
    write(ctx, t0, new=new)
    for rid in sorted(ctx.counts):
        a, b = ctx.counts[rid]
        print("%s %s: %d obligations, %d hold - %s" % (prop, rid, a, b, ctx.rules.get(rid, "")))
    for n in ctx.notes:
        print("note:", n)
    if new:
        rp = os.path.join(VERIF, "evidence", "%s.violations.json" % prop)
        json.dump(new, open(rp, "w"), indent=1)
        for v in new:
            print("  [%s] %s: %s" % (v["key"], v["where"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0


def write(ctx, t0, new=None, error=None):
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    tot = sum(c[0] for c in ctx.counts.values())
    hold = sum(c[1] for c in ctx.counts.values())
    cov = dict(
        explanation="Static analysis of /repo's current source (clang AST/CFG of every library function and of the "
                    "instantiated templates). Per rule: obligations generated from the source and how many hold.",
        obligations=tot, discharged=hold,
        rules={r: dict(rule=ctx.rules.get(r, ""), obligations=c[0], hold=c[1], samples=ctx.samples.get(r, []))
               for r, c in sorted(ctx.counts.items())},
        notes=ctx.notes,
    )
    if error:
        cov["error"] = error
    d = dict(property=ctx.prop, tier=ctx.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other",
             coverage=cov, assumptions=ctx.assume, wall_s=round(time.time() - t0, 2), violations=len(new or []))
    json.dump(d, open(os.path.join(ev, ctx.prop + ".json"), "w"), indent=1)
