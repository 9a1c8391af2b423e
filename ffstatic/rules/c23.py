"""C23: probes are counted for the field they were computed in.

1. `gate`: a reconstruction object takes values in only on paths on which the
   field number handed over with them is known to be its own.
2. `left`: when a reconstruction object moves to another field, no container of
   pending values still holds anything at the end of that critical region.
3. `number`: the number handed over with a value is the one of the field in use,
   not the number the object expects.
4. `switch`: when the process switches the field, no evaluation is under way
   and no evaluated or requested point of the old field is left."""
TECHNIQUE = "interprocedural dataflow (known comparisons, emptied containers, idle thread pool) over the clang CFG of the reconstruction classes and their callers"
NOTE = ("Values are followed from the feed functions to the containers of pending values; that the black box itself computes in the current field is C04. "
        "The message exchange that stops the MPI workers is trusted to be complete (C11 and C13 look at it).")

from ..core import *
from ..core import strip
from ..inter import *

PUSH = {"push", "push_back", "push_front", "emplace", "emplace_back", "emplace_front", "insert", "emplace_hint", "try_emplace", "insert_or_assign"}
HOLD = ("queue<", "deque<", "list<")


def primary(f):
    return "StubBlackBox" not in str(f.raw.get("targs") or "") and "StubBlackBox" not in f.q


def short(f):
    return f.q.split("::")[-2] + "::" + f.q.split("::")[-1] if "::" in f.q else f.q


def prime_field(P):
    """the member that counts the fields of a reconstruction object"""
    for r in P.recs.values():
        if r.n == "BaseReconst":
            for f in r.fields:
                if "prime" in f["n"] and "int" in f["t"]:
                    return f["n"]
    return None


def is_int(t):
    return t.replace("const", "").strip() in ("uint32_t", "unsigned int", "uint64_t", "unsigned long", "size_t", "int", "std::size_t", "std::uint32_t")


def empty_construct(e):
    e = strip(e)
    while e is not None and e.k == "Construct" and len(e.args()) == 1 and strip(e.args()[0]) is not None and strip(e.args()[0]).k == "Construct":
        e = strip(e.args()[0])
    return e is not None and ((e.k == "Construct" and not [a for a in e.args() if a.k != "DefArg"]) or (e.k in ("InitList", "ValueInit") and not e.c))


def written(n):
    """(target, value) of an assignment, or None"""
    if n.k == "Assign" and n.op == "=":
        return n.c[0], n.c[1]
    if n.k == "Call" and n.op == "=" and len(n.args()) == 2:
        return n.args()[0], n.args()[1]
    return None


def steps(n):
    """the target of an increment"""
    if n.k == "Un" and n.op in ("++", "--"):
        return n.c[0]
    if n.k == "Assign" and n.op in ("+=", "-="):
        return n.c[0]
    if n.k == "Call" and n.op in ("++", "--", "+=") and n.args():
        return n.args()[0]
    w = written(n)
    if w is not None:
        l, r = strip(w[0]), w[1]
        if l is not None and l.k in ("Member", "Ref"):
            for x in r.walk():
                if x.k == l.k and x.name == l.name and strip(r).k in ("Bin",):
                    return w[0]
    return None


class Gate(Inter):
    """must-facts: the handed-over number is known to be the object's own"""

    def __init__(self, P, pn, cls, sink):
        Inter.__init__(self, P)
        self.pn = pn
        self.cls = cls
        self.sink = sink
        self.numbers = set()      # paths that denote the number handed over

    def is_event(self, n, fn):
        if not n.k in ("Call", "Assign", "Un"):
            return False
        return (n.k == "Call" and n.name in PUSH) or n.k == "Assign" or (n.k == "Call" and n.op == "=") or steps(n) is not None

    def skip(self, g):
        return not g.recn or g.recn.split("::")[-1] not in self.cls or g.kind in ("ctor", "dtor")

    def wants(self, kind, n, fn):
        if kind != "S":
            return False
        return n.k in ("Call", "Assign", "Un", "Decl")

    def join(self, a, b):
        return a & b

    def own(self, p):
        return len(p) == 2 and p[0] == "this" and p[1] == self.pn

    def compare(self, fr, leaf, val, depth=0):
        out = set()
        leaf = strip(leaf)
        if leaf is None or depth > 4:
            return out
        if leaf.k in ("Un", "Bin") and (leaf.op == "!" or leaf.op in ("&&", "||")):
            for l, v in facts(leaf, val):
                out |= self.compare(fr, l, v, depth + 1)
            return out
        if leaf.k == "Bin" and leaf.op in ("==", "!=", "<", ">", "<=", ">="):
            a, b = fr.of(leaf.c[0]), fr.of(leaf.c[1])
            op = leaf.op
            if self.own(b):
                a, b = b, a
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            if self.own(a) and self.number(fr, leaf.c[1] if self.own(fr.of(leaf.c[0])) else leaf.c[0]):
                if not val:
                    op = {"==": "!=", "!=": "==", "<": ">=", ">": "<=", "<=": ">", ">=": "<"}[op]
                if op in ("==", "<=", "<"):
                    out.add("le")
                if op in ("==", ">=", ">"):
                    out.add("ge")
            return out
        if leaf.k == "Ref":
            d = leaf.d.get("d")
            v = fr.paths.decls.get(d)
            if v is not None and v.init is not None and self.value_param_stable(fr.fn, d):
                return self.compare(fr, v.init, val, depth + 1)
        if leaf.k == "Call":
            g = self.P.callee(leaf)
            if g is not None and g.raw.get("body") is not None:
                rets = [x for x in g.walk() if x.k == "Return" and x.c and x.c[0] is not None]
                if len(rets) == 1:
                    sub = Frame(g, self.bind(fr, leaf, g), fr, leaf)
                    return self.compare(sub, rets[0].c[0], val, depth + 1)
        return out

    def number(self, fr, e, depth=0):
        p = fr.of(e)
        if p in self.numbers or p[:2] in self.numbers:
            return True
        e = strip(e)
        if e is None or depth > 4:
            return False
        if e.k == "Ref":
            v = fr.paths.decls.get(e.d.get("d"))
            if v is not None and v.init is not None and not by_ref(v.t):
                return self.number(fr, v.init, depth + 1)
        return False

    def edge(self, fr, B, i, st):
        c = fr.fn.cfg.cond(B)
        if c is None or len(B.s) != 2:
            return st
        leaf, neg = leaf_cond(c)
        f = self.compare(fr, leaf, (i == 0) ^ neg)
        return st | frozenset(f) if f else st

    def event(self, fr, kind, n, st):
        if kind == "call":
            return st
        if kind != "S":
            return st
        t = steps(n)
        if t is not None and self.own(fr.of(t)):
            return st - {"le", "ge"}
        w = written(n)
        if w is not None:
            p = fr.of(w[0])
            if self.own(p):
                return st - {"le", "ge"}
            if p in self.numbers:
                return st - {"le", "ge"}
            if p[0] == "this" and len(p) >= 2 and any(h in unconst(w[0].t) for h in HOLD) and not empty_construct(w[1]):
                self.sink(fr, n, p[1], {"le", "ge"} <= st)
        if n.k == "Call" and n.name in PUSH and n.obj is not None:
            p = fr.of(n.obj)
            if p[0] == "this" and len(p) >= 2:
                self.sink(fr, n, p[1], {"le", "ge"} <= st)
        return st


def takers(P, pn, cls):
    """functions that take values in: [(fn, number decls/paths, kind)]"""
    out = []
    for f in P.fns.values():
        if f.raw.get("body") is None or not f.recn or f.recn.split("::")[-1] not in cls or f.kind in ("ctor", "dtor"):
            continue
        if f.n == "feed":
            ints = [pv for pv in f.params if is_int(pv.t)]
            vals = [pv for pv in f.params if "FFInt" in pv.t]
            if ints and vals:
                out.append((f, {("L", pv.d, pv.n) for pv in ints[-1:]}, "fed"))
            continue
        # reads stored values back from a file named after the field
        calls = [n for n in f.walk() if n.k == "Call" and n.name == "parse_prime_number"]
        if not calls:
            continue
        sets = any((written(n) and strip(written(n)[0]).k == "Member" and strip(written(n)[0]).name == pn) for n in f.walk())
        if sets:
            continue
        ids = {c.id for c in calls}
        num = set()
        for n in f.walk():
            for v in n.vars:
                if v.init is not None and any(x.id in ids for x in v.init.walk()):
                    num.add(("L", v.d, v.n))
        out.append((f, num | {("?", i) for i in ids}, "read"))
    return out


class Left(Inter):
    """emptied containers (must) and containers left filled when the object moves on (may)"""

    def __init__(self, P, pn, cls, hold, flags):
        Inter.__init__(self, P)
        self.pn = pn
        self.cls = cls
        self.hold = hold
        self.flags = flags
        self.sites = {}

    def is_event(self, n, fn):
        if n.k not in ("Call", "Assign", "Un"):
            return False
        return self.wants("S", n, fn)

    def skip(self, g):
        return not g.recn or g.recn.split("::")[-1] not in self.cls or g.kind in ("ctor", "dtor")

    def wants(self, kind, n, fn):
        if kind != "S":
            return True
        if n.k == "Call" and n.name in {"unlock", "swap", "clear", "erase", "pop", "pop_front", "lock"} | PUSH:
            return True
        t = steps(n)
        if t is not None and strip(t).k == "Member" and strip(t).name == self.pn:
            return True
        w = written(n)
        return w is not None and strip(w[0]) is not None and strip(w[0]).k == "Member"

    def join(self, a, b):
        return (a[0] & b[0], a[1] | b[1])

    def field(self, p):
        return p[1] if len(p) == 2 and p[0] == "this" and p[1] in self.hold else None

    def edge(self, fr, B, i, st):
        c = fr.fn.cfg.cond(B)
        if c is None or len(B.s) != 2:
            return st
        leaf, neg = leaf_cond(c)
        val = (i == 0) ^ neg
        E, Pn = st
        for l, v in facts(leaf, val):
            l = strip(l)
            if l is None:
                continue
            p = fr.of(l.obj) if l.k == "Call" and l.obj is not None else fr.of(l)
            if l.k == "Call" and l.name == "empty" and self.field(p) and v:
                E = E | {p[1]}
                Pn = frozenset(x for x in Pn if x[0] != p[1])
            elif l.k == "Call" and l.name in ("operator bool", "load") and len(p) == 2 and p[0] == "this" and p[1] in self.flags and v:
                E = E | self.flags[p[1]]
            elif l.k == "Member" and len(p) == 2 and p[0] == "this" and p[1] in self.flags and v:
                E = E | self.flags[p[1]]
        return (E, Pn)

    def event(self, fr, kind, n, st):
        if kind != "S":
            return st
        E, Pn = st
        t = steps(n)
        if t is not None:
            p = fr.of(t)
            if p == ("this", self.pn):
                x = fr
                key = (fr.fn.q.split("::")[-1], n.id)
                self.sites.setdefault(key, (fr.fn, n))
                return (E, Pn | frozenset((h, key) for h in self.hold if h not in E))
        w = written(n)
        if w is not None:
            h = self.field(fr.of(w[0]))
            if h:
                if empty_construct(w[1]) or self.is_fresh(fr, w[1]):
                    return (E | {h}, frozenset(x for x in Pn if x[0] != h))
                return (E - {h}, Pn)
            return st
        if n.k == "Call":
            if n.name == "unlock":
                return (frozenset(), Pn)
            ops = ([n.obj] if n.obj is not None else []) + (n.args() if n.name == "swap" else [])
            if n.name == "swap" and len(ops) == 2:
                a, b = ops
                for x, y in ((a, b), (b, a)):
                    h = self.field(fr.of(x))
                    if h:
                        if self.is_fresh(fr, y):
                            return (E | {h}, frozenset(z for z in Pn if z[0] != h))
                        return (E - {h}, Pn)
                return st
            if n.obj is not None:
                h = self.field(fr.of(n.obj))
                if h and n.name == "clear":
                    return (E | {h}, frozenset(x for x in Pn if x[0] != h))
                if h and n.name == "erase" and len(n.args()) == 2 and [getattr(strip(a), "name", "") for a in n.args()] == ["begin", "end"]:
                    return (E | {h}, frozenset(x for x in Pn if x[0] != h))
                pp = fr.of(n.obj)
                if n.name in PUSH and len(pp) >= 2 and pp[0] == "this" and pp[1] in self.hold:
                    return (E - {pp[1]}, Pn)
        return st

    def is_fresh(self, fr, e):
        e = strip(e)
        if e is None:
            return False
        if e.k == "Call" and e.name == "move" and e.args():
            e = strip(e.args()[0])
        if empty_construct(e):
            return True
        if e.k == "Construct" and len(e.args()) == 1:
            return self.is_fresh(fr, e.args()[0])
        if e.k == "Ref":
            v = fr.paths.decls.get(e.d.get("d"))
            if v is None or by_ref(v.t) or (v.init is not None and not empty_construct(v.init)):
                return False
            d = e.d.get("d")
            for x in fr.fn.walk():
                if x.k == "Call" and x.name in PUSH and x.obj is not None and strip(x.obj).k == "Ref" and strip(x.obj).d.get("d") == d:
                    return False
                w = written(x)
                if w is not None and strip(w[0]).k == "Ref" and strip(w[0]).d.get("d") == d:
                    return False
            return True
        return False


def reconst(ctx, P, pn):
    cls = {"RatReconst", "PolyReconst", "BaseReconst"}
    tk = takers(P, pn, cls)
    ctx.need("gate", len([1 for t in tk if t[2] == "fed"]), "functions that take values together with the number of their field")
    taken = {}
    for f, num, what in tk:
        got = {}

        def sink(fr, n, field, ok):
            k = (n.id, field)
            got[k] = (got.get(k, (True,))[0] and ok, fr, n, field)

        if what == "read":
            stream = any("stream" in unconst(v.t) for n in f.walk() for v in n.vars)
            if not stream:
                continue
        G = Gate(P, pn, cls, sink)
        G.numbers = num
        G.run(f, frozenset())
        if not got and what == "fed":
            ctx.notes.append("gate: %s takes values but stores none" % short(f))
        for (i, field), (ok, fr, n, _) in sorted(got.items()):
            taken.setdefault(f.recn.split("::")[-1], {}).setdefault(f.u, set()).add(field)
            ctx.check(ok, "gate", "%s.%s" % (short(f), field), n.loc(),
                      "%s puts a value into %s (%s) on a path on which the number of its field is not known to be the object's own" % (short(f), field, fr.chain()),
                      "%s: %s only with the object's own field [%s]" % (short(f), field, n.loc()))
    # moving on
    for c in ("RatReconst", "PolyReconst"):
        hold = set()
        base = set()
        for r in P.recs.values():
            if r.n == c:
                for fd in r.fields:
                    t = unconst(fd["t"])
                    canon = fd.get("ct") or t
                    if "FFInt" in canon and any(h in canon for h in HOLD) and "RatReconst" not in canon:
                        hold.add(fd["n"])
                    elif "ff_queue_map" in t:
                        hold.add(fd["n"])
        feeds = [f for f, _, w in tk if w == "fed" and f.recn.split("::")[-1] == c]
        fed = set()
        for f in feeds:
            fed |= taken.get(c, {}).get(f.u, set())
        # containers that only record the values for a save file are emptied where they are used
        log = {h for h in hold if not consumed(P, c, h)}
        hold -= log
        if not hold:
            ctx.notes.append("left: %s holds no pending values" % c)
            continue
        # a flag that is set where the containers are emptied and taken back where the first value comes in
        flags = {}
        setters = {}
        for f in P.fns.values():
            if f.recn and f.recn.split("::")[-1] in (c, "BaseReconst") and f.kind not in ("ctor", "dtor") and f.raw.get("body") is not None:
                inc = any(steps(n) is not None and strip(steps(n)).k == "Member" and strip(steps(n)).name == pn for n in f.walk())
                for n in f.walk():
                    w = written(n)
                    if w is not None and strip(w[0]).k == "Member" and strip(w[1]).k == "Bool":
                        setters.setdefault(strip(w[0]).name, set()).add((bool(strip(w[1]).cv), f.u, inc))
        fu = {f.u for f in feeds}
        for m, ss in setters.items():
            if any(v and inc and u not in fu for v, u, inc in ss) and any(not v and u in fu for v, u, inc in ss) and fu <= {u for v, u, _ in ss if not v}:
                flags[m] = frozenset(hold)
        L = Left(P, pn, {c, "BaseReconst"}, frozenset(hold), flags)
        roots = []
        for f in P.fns.values():
            if f.recn and f.recn.split("::")[-1] == c and f.kind not in ("ctor", "dtor") and f.raw.get("body") is not None:
                if any(steps(n) is not None and strip(steps(n)).k == "Member" and strip(steps(n)).name == pn for n in f.walk()):
                    roots.append(f)
        # the function that moves on may be a helper of the one that empties
        incs = {f.u for f in roots}
        up = set()
        for f in roots:
            e = L.run(f, (frozenset(), frozenset()))
            bad = {} if e is None else {h: k for h, k in e[1]}
            if bad:
                for g, _ in P.callers().get(f.u, ()):
                    up.add(g.u)
                ok2 = callers_ok(P, L, f, set())
                if ok2:
                    bad = {}
            for h in sorted(hold):
                ctx.check(h not in bad, "left", "%s.%s" % (short(f), h), f.loc(),
                          "%s moves the object to the next field while values of the old one may stay in %s" % (short(f), h),
                          "%s: %s is empty after moving to the next field" % (short(f), h))
        ctx.need("left", len(roots), "functions of %s that move to the next field" % c)


def callers_ok(P, L, f, seen):
    """every caller of a function that moves on empties the containers itself"""
    if f.u in seen or len(seen) > 5:
        return False
    seen.add(f.u)
    cs = [g for g, _ in P.callers().get(f.u, ()) if g.recn == f.recn and g.u != f.u]
    if not cs or f.raw.get("acc") == "public":
        return False
    for g in cs:
        e = L.run(g, (frozenset(), frozenset()))
        if e is not None and e[1]:
            return False
    return True


def consumed(P, cls, h):
    """are elements of this container taken out to be interpolated (not just written to a file)"""
    for f in P.fns.values():
        if not f.recn or f.recn.split("::")[-1] != cls or f.raw.get("body") is None:
            continue
        takes = False
        for n in f.walk():
            if n.k == "Call" and n.name in ("front", "back") and n.obj is not None:
                p = FPaths(f, {}).of(n.obj)
                if len(p) >= 2 and p[0] == "this" and p[1] == h:
                    takes = True
            w = None
            if n.k == "Decl":
                for v in n.vars:
                    if v.init is not None:
                        p = FPaths(f, {}).of(v.init)
                        if len(p) >= 2 and p[0] == "this" and p[1] == h:
                            takes = True
            w = written(n)
            if w is not None and strip(w[0]).k == "Ref":
                p = FPaths(f, {}).of(w[1])
                if len(p) >= 2 and p[0] == "this" and p[1] == h:
                    takes = True
        if takes and any(n.k == "Call" and n.name == "interpolate" for n in f.walk()):
            return True
    return False


# ---- the process side

class Switch(Inter):
    """the thread pool is idle and the containers of points are empty when the field changes"""
    maxdepth = 12

    def __init__(self, P, cls, hold, pools, sink):
        Inter.__init__(self, P)
        self.cls = cls
        self.hold = hold
        self.pools = pools
        self.sink = sink
        self.off = set()

    def is_event(self, n, fn):
        return n.k in ("Call", "Assign") and self.wants("S", n, fn)

    def skip(self, g):
        return not g.recn or g.recn.split("<")[0].split("::")[-1] != self.cls

    def wants(self, kind, n, fn):
        if kind != "S":
            return False
        if n.k == "Call" and n.name in {"set_new_prime", "run_task", "run_priority_task", "kill_all", "clear", "swap"} | PUSH:
            return True
        w = written(n)
        return w is not None and strip(w[0]) is not None and strip(w[0]).k == "Member"

    def join(self, a, b):
        return a & b

    def edge(self, fr, B, i, st):
        c = fr.fn.cfg.cond(B)
        if c is None or len(B.s) != 2:
            return st
        leaf, neg = leaf_cond(c)
        val = (i == 0) ^ neg
        for l, v in facts(leaf, val):
            l = strip(l)
            if l is not None and v:
                q = fr.of(l.obj) if l.k == "Call" and l.obj is not None else fr.of(l)
                if len(q) == 2 and q[0] == "this" and q[1] in self.off:
                    return None
            if l is not None and l.k == "Call" and l.name == "wait" and l.obj is not None and "ThreadPool" in l.obj.t and not v:
                st = st | {"idle"}
            if l is not None and l.k == "Call" and l.name == "empty" and l.obj is not None and v and "idle" in st:
                p = fr.of(l.obj)
                if len(p) == 2 and p[1] in self.hold:
                    st = st | {p[1]}
        return st

    def event(self, fr, kind, n, st):
        if kind == "S" and n.k == "Call" and n.name == "set_new_prime":
            self.sink(fr, n, st)
            return st
        if n.k == "Call" and n.obj is not None and n.name in ("run_task", "run_priority_task", "kill_all"):
            # pools of a function's own (the one that communicates) do not evaluate
            p = fr.of(n.obj)
            if not (p[0] == "this" and p[-1] in self.pools):
                return st
            return st | {"idle"} if n.name == "kill_all" else frozenset()
        if kind != "S":
            return st
        w = written(n)
        if w is not None:
            p = fr.of(w[0])
            if len(p) == 2 and p[0] == "this" and p[1] in self.hold:
                return (st | {p[1]}) if empty_construct(w[1]) and "idle" in st else st - {p[1]}
            return st
        if n.k == "Call" and n.obj is not None:
            p = fr.of(n.obj)
            if len(p) >= 2 and p[0] == "this" and p[1] in self.hold:
                if n.name == "clear" and len(p) == 2:
                    return (st | {p[1]}) if "idle" in st else st
                if n.name in PUSH:
                    return st - {p[1]}
                if n.name == "swap":
                    return st - {p[1]}
        return st


FILED = set()     # flags under which points come from a file; without MPI only (with MPI the flag is refused)


def process(ctx, P, cfg):
    n = 0
    done = set()
    for r in P.recs.values():
        pool = [f["n"] for f in r.fields if "ThreadPool" in f["t"]]
        if not pool or r.file.endswith("ThreadPool.hpp"):
            continue
        cls = r.n.split("<")[0]
        if cls not in ("Reconstructor", "MPIWorker"):
            continue
        hold = set()
        for fd in r.fields:
            t = unconst(fd["t"])
            if "RatReconst" in t:
                continue
            if cls == "Reconstructor":
                if "FFInt" in t and (any(h in t for h in HOLD) or re_index(t)):
                    hold.add(fd["n"])
            elif "vector<" in t and ("uint64_t" in t or "unsigned long" in t):
                hold.add(fd["n"])
        if not hold:
            continue
        if cls in done:
            continue
        done.add(cls)
        fs = [f for f in P.fns.values() if f.recn == cls and f.raw.get("body") is not None]
        fs = [f for f in fs if primary(f)] or fs
        got = {}

        def sink(fr, node, st):
            k = (node.loc(),)
            x = got.get(k)
            got[k] = (st if x is None else x[0] & st, fr, node)

        S = Switch(P, cls, frozenset(hold), pool, sink)
        FILED.update(from_file(P, fs, hold))
        S.off = FILED
        if S.off and cls == "Reconstructor" and cfg == "flint":
            ctx.assume.append("with %s nothing is evaluated, so there is nothing to wait for when the field changes" % "/".join(sorted(S.off)))
        entry = frozenset(hold) | {"idle"}
        have = {f.u for f in fs}
        for f in fs:
            if f.kind in ("ctor", "dtor"):
                if f.kind == "ctor":
                    S.run(f, entry)
                continue
            inner = [g for g, _ in P.callers().get(f.u, ()) if g.u in have]
            if inner:
                continue
            S.run(f, entry)
        for k, (st, fr, node) in sorted(got.items()):
            n += 1
            miss = (["the thread pool may be busy"] if "idle" not in st else []) + ["%s may hold points" % h for h in sorted(hold - st)]
            ctx.check(not miss, "switch", "%s:%s" % (cls, fr.fn.q.split("::")[-1]), node.loc(),
                      "the field changes (%s) while %s of the old field" % (fr.chain(), ", ".join(miss)),
                      "%s: idle and empty at %s" % (cls, node.loc()))
    return n


def from_file(P, fs, hold):
    """flags under which the points are read from a file instead of being evaluated"""
    loaders = set()
    for f in fs:
        if any("ifstream" in unconst(v.t) or "igzstream" in unconst(v.t) for n in f.walk() for v in n.vars):
            if any(n.k == "Call" and n.name in PUSH and n.obj is not None and FPaths(f, {}).of(n.obj)[:1] == ("this",) and FPaths(f, {}).of(n.obj)[1:2] and
                   FPaths(f, {}).of(n.obj)[1] in hold for n in f.walk()):
                loaders.add(f.u)
    out = set()
    for f in fs:
        for n in f.walk():
            if n.k == "If" and n.c[1] is not None and any(x.k == "Call" and P.callee(x) is not None and P.callee(x).u in loaders for x in n.c[1].walk()):
                for l, v in facts(n.c[0], True):
                    l = strip(l)
                    q = FPaths(f, {}).of(l.obj) if l.k == "Call" and l.obj is not None else FPaths(f, {}).of(l)
                    if v and len(q) == 2 and q[0] == "this" and len(list(n.c[1].walk())) < 12:
                        out.add(q[1])
    return out


def re_index(t):
    """a map from the number of an outstanding point to the point"""
    return "map<uint64_t" in t or "map<unsigned long" in t or "map<std::uint64_t" in t


def numbers(ctx, P):
    """the number handed to feed"""
    idx = {}
    for f in P.fns.values():
        if not primary(f):
            continue
        for n in f.walk():
            if n.k == "Call" and n.name == "set_new_prime" and n.args():
                for x in n.args()[0].walk():
                    if x.k == "Member" and not x.d.get("sm") and strip(x.c[0] if x.c else None) is not None and strip(x.c[0]).k == "This":
                        idx.setdefault(f.recn, set()).add(x.name)
    k = 0
    for f in P.fns.values():
        if not primary(f) or f.raw.get("body") is None or (f.recn or "").split("::")[-1] in ("RatReconst", "PolyReconst"):
            continue
        fp = FPaths(f, {})
        for n in f.walk():
            if n.k != "Call" or n.name != "feed" or n.obj is None:
                continue
            g = P.callee(n)
            if g is None or not g.recn or g.recn.split("::")[-1] not in ("RatReconst", "PolyReconst"):
                continue
            ints = [i for i, pv in enumerate(g.params) if is_int(pv.t)]
            if not ints:
                ctx.bad("number", "%s.feed" % short(f), n.loc(), "%s hands over a value without the number of its field" % short(f))
                continue
            a = n.args()[ints[-1]]
            k += 1
            own = expand(f, a)
            names = {x.name for e in own for x in e.walk() if x.k == "Call"}
            p = fp.of(own[-1]) if own else fp.of(a)
            if names & {"get_prime", "get_done_and_prime", "get_zi_orders", "interpolate"}:
                ctx.bad("number", "%s.feed" % short(f), n.loc(), "%s hands over the number the function itself asks for, so values of another field pass as well" % short(f))
            elif p[0] == "this" and any(p[1] in s for c, s in idx.items() if c == f.recn):
                ctx.ok("number", "%s: %s" % (short(f), ".".join(map(str, p[1:]))))
            elif strip(a).k == "Int":
                ctx.bad("number", "%s.feed" % short(f), n.loc(), "%s hands over a constant as number of the field" % short(f))
            else:
                ctx.notes.append("number: cannot tell where the number in %s (%s) comes from" % (short(f), n.loc()))
    ctx.need("number", k, "calls of feed")


def expand(f, e, depth=0):
    """the expression and the initialisers of the locals it uses"""
    out = [strip(e)]
    e = strip(e)
    if e is None or depth > 4:
        return [x for x in out if x is not None]
    if e.k == "Ref":
        fp = FPaths(f, {})
        v = fp.decls.get(e.d.get("d"))
        if v is not None and v.init is not None:
            out += expand(f, v.init, depth + 1)
    elif e.k in ("Construct",) and len(e.args()) == 1:
        out += expand(f, e.args()[0], depth + 1)
    else:
        for x in e.walk():
            if x.k == "Ref" and x is not e:
                fp = FPaths(f, {})
                v = fp.decls.get(x.d.get("d"))
                if v is not None and v.init is not None:
                    out += expand(f, v.init, depth + 1)
    return [x for x in out if x is not None]


def run(ctx):
    PP = load(("default", "flint", "flintmpi"))
    ctx.rule("gate", "values are taken in only where the number of their field is known to be the object's own")
    ctx.rule("left", "no pending value of the old field is left when an object moves to the next field")
    ctx.rule("number", "the number handed over with a value is the one of the field in use")
    ctx.rule("switch", "no evaluation is under way and no point of the old field is left when the process switches the field")
    P = PP["default"]
    pn = prime_field(P)
    if pn is None:
        raise AnalysisError("no member counts the fields of a reconstruction object")
    reconst(ctx, P, pn)
    tot = 0
    for cfg in ("flint", "flintmpi"):
        numbers(ctx, PP[cfg])
        tot += process(ctx, PP[cfg], cfg)
    ctx.need("switch", tot, "changes of the field")
