"""C08: every access to shared state holds the lock that protects it.

The library's threads are enumerated (driver, every task it submits directly or through other tasks, calls a user may
make meanwhile); for each the set of locks held at every access to a member or static variable is computed over its
whole call graph. Two accesses to the same object by threads that can run at the same time, at least one of them a
write, must have a lock in common."""
from ..core import *
from ..core import strip
from ..threads import *

TECHNIQUE = ("static lockset analysis: context-sensitive dataflow over the clang control-flow graphs of every thread the library "
             "starts (held locks, test-and-set ownership flags, tasks that can be running), pairwise disjoint-lockset test of conflicting accesses")
NOTE = ("Driver statements that run while no task is live need no lock. A member read or written without a lock by the driver while only the "
        "MPI communication thread runs is ordered by the hand-over flags and not judged. Contents of the black box are the user's.")

SKIP_MEMBERS = ("logger",)


class Obj(Conc):
    """accesses of the methods of one reconstruction object"""

    def __init__(self, P):
        pre = ("firefly::RatReconst::", "firefly::BaseReconst::", "firefly::PolyReconst::")
        Conc.__init__(self, P, lambda q, n: q.startswith(pre) and not is_stream(n.t))
        self.want_path = lambda p, q: p[0] == "this" or p[0] == "S" and q.startswith(pre)
        self._done = {}
        self._ho = set()

    def task_written(self):
        return set()

    def of_method(self, g):
        if g.u not in self._done:
            self.access, self.memo = {}, {}
            self.run(g, INIT, {"this": ("this",)})
            self._done[g.u] = list(self.access.values())
        return self._done[g.u]


def stored(r):
    """constant stored by a write, or None"""
    p = r.node.p
    while p is not None and p.k == "Cast":
        p = p.p
    if p is not None and p.k == "Assign" and p.op == "=" and strip(p.c[0]) is r.node and strip(p.c[1]) is not None:
        return strip(p.c[1]).cv
    return None


def latches(recs):
    """(member path, value) the accesses of a thread set to a constant"""
    out = set()
    for r in recs:
        if r.write and len(r.path) == 2:
            v = stored(r)
            if v is not None:
                out.add((r.path, bool(v)))
    return out


def short(path):
    return ".".join(x.split("::")[-1] for x in path[1:]).replace(".[]", "[]") if path[0] == "this" else path[1].replace("firefly::", "") + "".join("." + x for x in path[2:])


def by_top(recs):
    d = {}
    for r in recs:
        d.setdefault(r.path[:2], []).append(r)
    return d


def locks(r, extra=frozenset()):
    return {m[-1] for m in r.held | extra} - {"token"}


def describe(r, extra=frozenset()):
    h = sorted(x.split("::")[-1] for x in locks(r, extra))
    return "%s at %s %s (%s)" % ("write" if r.write else "read", r.node.loc(), "holding " + ", ".join(h) if h else "without a lock", r.chain)


def members(ctx, M, rid):
    """members of the class that runs the threads"""
    T = M.T
    roots = M.roots()
    tops = {r: by_top(a for a in T.by_root[r]["access"].values() if a.path[0] == "this" and a.path[1] not in SKIP_MEMBERS) for r in roots}
    for i, r in enumerate(roots):
        for s in roots[i:]:
            if not M.concurrent(r, s):
                continue
            for top in tops[r]:
                if top not in tops[s]:
                    continue
                bad = None
                n = 0
                for a in tops[r][top]:
                    lt = T.live_tasks(a.live) if r[0] == "driver" and s[0] == "task" else None
                    if lt is not None and s[1] not in lt:
                        continue
                    for b in tops[s][top]:
                        if not conflict(a, b):
                            continue
                        n += 1
                        if locks(a) & locks(b) or opposed(a, b):
                            continue
                        hr, hs = M.handed(r), M.handed(s)
                        if hr and tok(a) or hs and tok(b):
                            if r[0] == s[0] == "task" or tok(a) and tok(b):
                                continue  # the turn was handed over before the task started / is held by one side
                        if hs and r[0] == "driver" and (not locks(a) or tok(a)) or hr and s[0] == "driver" and (not locks(b) or tok(b)):
                            continue
                        if hs and r[0] == "driver" and tok(b) or hr and s[0] == "driver" and tok(a):
                            continue
                        if bad is None or (b.write, a.write) > (bad[1].write, bad[0].write):
                            bad = (a, b)
                if n:
                    key = "%s.%s:%s:%s" % (M.cls, short(top), T.name(r), T.name(s))
                    ctx.check(bad is None, rid, key, bad[0].node.loc() if bad else "%d pairs" % n,
                              bad and "'%s' is accessed by two threads without a common lock: %s in %s; %s in %s" %
                              (short(bad[0].path), describe(bad[0]), T.name(r), describe(bad[1]), T.name(s)))


def opposed(a, b):
    """the two accesses need opposite values of a member no task changes"""
    return any((p, not v) in b.known for p, v in a.known)


def tok(r):
    return any(m[-1] == "token" for m in r.held)


def method_uses(M):
    """(root, method, locks of the caller, live tasks, object) of every call of a reconstruction object's method by a thread"""
    out = {}
    for r, d in M.T.by_root.items():
        for (w, n), v in d["calls"].items():
            if w != "call":
                continue
            for h, l, fr, g, o in v:
                if g.recn in ("RatReconst", "BaseReconst", "PolyReconst") and g.cfg is not None:
                    k = (r, g.u, frozenset(h), o[:2])
                    out.setdefault(k, [g, set(), n])[1].update(M.T.live_tasks(l) if r[0] == "driver" else ())
    return out


def objects(ctx, M, O, rid, rid_s):
    """members of the objects in the table of functions, and static variables"""
    U = method_uses(M)
    T = M.T
    groups = {}
    for (r, gu, h, o), (g, live, n) in U.items():
        groups.setdefault((r, gu, o), []).append((h, live, n))
    items = []
    for (r, gu, o), v in groups.items():
        g = M.P.fns[gu]
        hs = frozenset.intersection(*[h for h, _, _ in v])
        items.append((r, g, o, hs, v))
    lat = {}
    for i, (r, g, o, hr, vr) in enumerate(items):
        for s, k, p, hs, vs in items[i:]:
            if r == s and r[0] == "driver" or not M.concurrent(r, s):
                continue
            hr2, hs2 = hr, hs
            if r[0] == "driver" and s[0] == "task":
                w = [h for h, live, _ in vr if s[1] in live]
                if not w:
                    continue
                hr2 = frozenset.intersection(*w)
            if s[0] == "driver" and r[0] == "task":
                w = [h for h, live, _ in vs if r[1] in live]
                if not w:
                    continue
                hs2 = frozenset.intersection(*w)
            # the same object: an element of the table; different elements are different objects
            same = o == p and o[0] == "this"
            A, B = by_top(O.of_method(g)), by_top(O.of_method(k))
            for top in A:
                if top not in B or top[0] == "this" and not same:
                    continue
                bad, n = None, 0
                for a in A[top]:
                    for b in B[top]:
                        if not conflict(a, b):
                            continue
                        n += 1
                        la, lb = locks(a, hr2), locks(b, hs2)
                        if la & lb or opposed(a, b):
                            continue
                        if top[0] == "this" and (a.known & latch(O, k, lat) or b.known & latch(O, g, lat)):
                            continue  # one side runs only after (before) the other one set (reset) the flag
                        if bad is None:
                            bad = (a, b)
                if n:
                    rr = rid if top[0] == "this" else rid_s
                    key = "%s:%s:%s" % (short(top), g.n, k.n)
                    ctx.check(bad is None, rr, key, bad[0].node.loc() if bad else "%d pairs" % n,
                              bad and "'%s' of a reconstruction object is accessed by two threads without a common lock: %s called by %s; %s called by %s" %
                              (short(bad[0].path), describe(bad[0], hr2), T.name(r), describe(bad[1], hs2), T.name(s)))


def latch(O, g, memo):
    if g.u not in memo:
        memo[g.u] = latches(O.of_method(g))
    return memo[g.u]


class Pool(Conc):
    """the thread pool's own functions"""

    def __init__(self, P):
        pre = "firefly::ThreadPool::"
        Conc.__init__(self, P, lambda q, n: q.startswith(pre))
        self.skip_recs = set()
        self._ho = set()
        self.want_path = lambda p, q: p[0] == "this" and q.startswith(pre)

    def call_kind(self, n):
        k = Conc.call_kind(self, n)
        return None if k == "submit" or k in ("kill_all", "wait") and "condition_variable" not in method_of(n)[0] else k

    def accesses(self, g, fr=None):
        self.access, self.memo = {}, {}
        env = {"this": ("this",)}
        self.run_frame(Frame(g, FPaths(g, env)), INIT)
        return [a for a in self.access.values() if len(a.path) < 3 or a.path[2] == "[]"]


def pool_roots(P):
    """(name, function) of what different threads may execute: the public interface and what the constructor gives to its threads"""
    fs = [f for f in P.fns.values() if f.recn == "ThreadPool" and f.cfg is not None and not f.lam and f.raw.get("body") is not None and not f.flag("static")]
    inner = set()
    for f in fs + [f for f in P.fns.values() if f.lam and "ThreadPool::" in strip_targs(f.q) and f.raw.get("body") is not None]:
        for n in f.walk():
            if n.k == "Call":
                g = P.callee(n)
                if g is not None and g.recn == "ThreadPool":
                    inner.add(g.u)
    outer = {u for u in inner for c, _ in P.callers().get(u, ()) if c.recn != "ThreadPool" and "ThreadPool::" not in strip_targs(c.q)}
    out = [(f.n, f) for f in fs if f.u not in inner or f.u in outer]
    for f in fs:
        if f.kind == "ctor":
            for n in f.walk():
                if n.k == "Lambda" and not n.fn.lam:
                    out += [("worker", g) for g in P.lams.get(n.d["lam"], [])]
    return out


def pool(ctx, P, rid):
    C = Pool(P)
    recs = []
    for name, f in pool_roots(P):
        recs.append((name, f.kind, C.accesses(f)))
    ctx.need(rid, any(n == "worker" for n, _, _ in recs), "function run by the pool's threads")
    for i, (n, k, A) in enumerate(recs):
        for m, l, B in recs[i:]:
            if (k in ("ctor", "dtor") and m != "worker") or (l in ("ctor", "dtor") and n != "worker"):
                continue  # construction and destruction only overlap with the pool's own threads
            for a in A:
                for b in B:
                    if not conflict(a, b):
                        continue
                    key = "%s:%s:%s" % (short(a.path), n, m)
                    ctx.check(locks(a) & locks(b), rid, key, a.node.loc(), "'%s' of the pool is accessed by two threads without a common lock: %s; %s" %
                              (short(a.path), describe(a), describe(b)))


def run(ctx):
    ctx.rule("members", "accesses by concurrent threads to a member of the reconstructor or worker, one of them a write, share a lock")
    ctx.rule("object", "accesses by concurrent threads to a member of a reconstruction object, one of them a write, share a lock or ownership flag")
    ctx.rule("static", "accesses by concurrent threads to a static variable of the reconstruction classes, one of them a write, share a lock")
    ctx.rule("pool", "the thread pool's queue and flags are only accessed under its lock")
    cfgs = ("default", "flint", "mpi", "flintmpi") if ctx.thorough else ("default", "mpi")
    for cfg, P in load(cfgs).items():
        O = Obj(P)
        for M in models(P, "mpi" in cfg):
            members(ctx, M, "members")
            objects(ctx, M, O, "object", "static")
            ctx.notes.append("%s %s: threads %s" % (cfg, M.cls, ", ".join(M.T.name(r) for r in M.roots())))
        pool(ctx, P, "pool")
    ctx.assume.append("the driver only touches members without a lock while the MPI communication thread waits for a hand-over flag")
    ctx.assume.append("test-and-set flags changed only under a lock give exclusive ownership until they are cleared")
