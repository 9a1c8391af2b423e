"""C09: locks are taken in one order, nothing waits for other work while it holds a lock, and no wake-up can be lost."""
from ..core import *
from ..core import strip
from ..threads import *
from .c08 import Obj, Pool, pool_roots, locks

TECHNIQUE = ("static deadlock analysis: lock-order graph over the call graph of every thread (cycle search), held-lock test at every blocking "
             "operation, and must-notify dataflow from every change of a waited-for condition")
NOTE = ("Waits for messages of other processes (MPI) are not part of the order; a worker never waits for a lock of the master. Black boxes that "
        "themselves block are the user's. Locks are identified by class and member, so two objects' locks of the same class count as one.")

GROW = {"push_back", "emplace_back", "push_front", "emplace_front", "push", "emplace", "insert", "try_emplace", "insert_or_assign", "append"}
SHRINK = {"pop", "pop_front", "pop_back", "clear", "erase"}


# ------------------------------------------------------------------ lock order
def lname(M, m):
    if m[0] == "S":
        return strip_targs(m[1]).replace("firefly::", "")
    if len(m) != 2 or m[0] != "this":
        return "other object's %s" % m[-1]
    return "%s::%s" % (M, ".".join(str(x) for x in m[1:]))


class Order:
    def __init__(self):
        self.edges = {}

    def add(self, a, b, where, how):
        self.edges.setdefault((a, b), (where, how))

    def cycles(self):
        g = {}
        for a, b in self.edges:
            g.setdefault(a, set()).add(b)
        out = []
        for a, b in sorted(self.edges):
            # an edge on a cycle: b reaches a
            seen, st = {b}, [b]
            prev = {b: None}
            while st:
                x = st.pop()
                if x == a:
                    break
                for y in g.get(x, ()):
                    if y not in seen:
                        seen.add(y)
                        prev[y] = x
                        st.append(y)
            if a in seen:
                path = []
                x = a
                while x is not None:
                    path.append(x)
                    x = prev[x]
                out.append((a, b, list(reversed(path))))
        return out


def pairs(ctx, P, O):
    """functions that lock two objects of one class must lock them jointly: opposite calls would wait for each other"""
    seen = set()
    for g in sorted(P.fns.values(), key=lambda f: f.u):
        if g.cfg is None or g.lam or g.kind in ("ctor", "dtor"):
            continue
        cls = [strip_targs(unconst(v.t).strip(" &").split("::")[-1]) for v in g.params]
        if not any(c in REC and (g.recn == c or cls.count(c) > 1) for c in cls) or (g.q, g.loc()) in seen:
            continue
        seen.add((g.q, g.loc()))
        O.acquire, O.memo, O.access = {}, {}, {}
        env = {("L", v.d, v.n): ("obj%d" % i,) for i, v in enumerate(g.params)}
        env["this"] = ("this",)
        O.run(g, INIT, env)
        bad = None
        for (m, held), (n, ch) in O.acquire.items():
            for h in real(held):
                if h[-1] == m[-1] and h != m:
                    bad = bad or (n.loc(), m[-1])
        short_ = "%s.%s" % (g.recn, g.n)
        ctx.check(bad is None, "order", "pair:" + short_, bad[0] if bad else g.loc(),
                  "locks %s of two objects one after the other: two threads that call it with the objects exchanged wait for each other" % (bad[1].split("::")[-1] if bad else ""))


def acquired_by(O, g, memo):
    """(locks a method takes, with what it holds then) of a library object's method"""
    if g.u not in memo:
        O.acquire, O.memo, O.access = {}, {}, {}
        O.run(g, INIT, {"this": ("this",)})
        memo[g.u] = dict(O.acquire)
    return memo[g.u]


REC = {"RatReconst": "RatReconst", "BaseReconst": "RatReconst", "PolyReconst": "PolyReconst"}


def real(ms):
    return [m for m in ms if m[0] not in ("flag", "token") and m[-1] != "token"]


def order(ctx, G, M, O, memo):
    for r, d in M.T.by_root.items():
        for (m, held), (n, ch) in d["acquire"].items():
            for x in real(held):
                G.add(lname(M.cls, x), lname(M.cls, m), n.loc(), ch)
            if not real(held):
                G.edges.setdefault(("", lname(M.cls, m)), (n.loc(), ch))
        for (w, n), v in d["calls"].items():
            for x in v:
                held = real(x[0])
                if w != "call":
                    for h in held:
                        G.add(lname(M.cls, h), "ThreadPool::mutex", n.loc(), w)
                    continue
                g = x[3]
                if g.recn in REC and g.cfg is not None:
                    for (m, inner), (k, ch) in acquired_by(O, g, memo).items():
                        for h in held:
                            G.add(lname(M.cls, h), lname(REC[g.recn], m), k.loc(), ch + " called at " + n.loc())
                        for h in real(inner):
                            G.add(lname(REC[g.recn], h), lname(REC[g.recn], m), k.loc(), ch)
        for (n, u), (pool, fr, hs) in d["submits"].items():
            for held in hs:
                for h in real(held):
                    G.add(lname(M.cls, h), "ThreadPool::mutex", n.loc(), "task submission")


# ------------------------------------------------------------------ blocking while holding a lock
def blocking(ctx, M, rid):
    for r, d in M.T.by_root.items():
        who = M.T.name(r)

        def judge(kind, n, helds, what):
            bad = [sorted(x[-1].split("::")[-1] for x in real(h)) for h in helds if real(h)]
            key = "%s.%s:%s:%s" % (M.cls, n.fn.n or "task", kind, what)
            ctx.check(not bad, rid, key, n.loc(), "%s in %s runs while %s is held" % (what, who, ", ".join(bad[0]) if bad else ""))
        for (cv, n), v in d["waits"].items():
            judge("wait", n, [o for _, o, _, _, _ in v], "wait for " + str(cv[-1]).split("::")[-1])
        for (n, u), (pool, fr, hs) in d["submits"].items():
            judge("submit", n, hs, "task submission (runs at once in a pool without threads)")
        for (w, n), v in d["calls"].items():
            if w in ("kill_all", "pool_wait", "join"):
                judge(w, n, [x[0] for x in v], {"kill_all": "discarding the pool's tasks", "pool_wait": "wait for the pool", "join": "wait for a thread or result"}[w])
            elif w == "call":
                g = v[0][3]
                if g.recn == "BlackBoxBase":
                    judge("box", n, [x[0] for x in v], "black-box call " + g.n)
                elif g.recn == "RatReconst" and g.n == "interpolate":
                    judge("interpolate", n, [x[0] for x in v], "reconstruction step")


# ------------------------------------------------------------------ waits
def wants(P, fr_of, e, t, out, depth=0):
    """members an expression depends on and how they must be for it to have truth value t"""
    e = strip(e)
    if e is None or depth > 12:
        return
    if e.k == "Un" and e.op == "!":
        return wants(P, fr_of, e.c[0], not t, out, depth + 1)
    if e.k == "Call" and e.op == "!" and len(e.args()) == 1:
        return wants(P, fr_of, e.args()[0], not t, out, depth + 1)
    if e.k == "Bin" and e.op in ("&&", "||"):
        wants(P, fr_of, e.c[0], t, out, depth + 1)
        wants(P, fr_of, e.c[1], t, out, depth + 1)
        return
    if e.k == "Bin" and e.op in ("==", "!=", ">", "<", ">=", "<="):
        a, b, op = strip(e.c[0]), strip(e.c[1]), e.op
        if a is not None and a.cv is not None and (b is None or b.cv is None):
            a, b, op = b, a, {">": "<", "<": ">", ">=": "<=", "<=": ">="}.get(op, op)
        if b is not None and b.cv is not None:
            z = b.cv
            big = None
            if z == 0 and op in (">", "!=") or z == 1 and op == ">=":
                big = True
            elif z == 0 and op in ("==", "<=") or z == 1 and op == "<":
                big = False
            if z == 1 and op in ("==", "!=") and a is not None and a.t == "bool":
                big = op == "=="
            if big is not None:
                return wants(P, fr_of, a, big == t, out, depth + 1)
        for x in (e.c[0], e.c[1]):
            anyof(fr_of, x, out)
        return
    if e.k == "Call":
        if e.obj is not None and e.name == "empty":
            return put(fr_of, e.obj, not t, out)
        if e.obj is not None and (e.name in ("size", "load", "length") or e.name.startswith("operator ")):
            return put(fr_of, e.obj, t, out)
        g = P.callee(e)
        if g is not None and g.raw.get("body") is not None:
            f2 = lambda n: FPaths(g, {"this": fr_of(e.obj) if e.obj is not None else ("this",)}).of(n)
            for r in g.walk():
                if r.k == "Return" and r.c and r.fn is g:
                    v = strip(r.c[0])
                    if v is not None and v.cv is not None:
                        conds = controlling(r)
                        if bool(v.cv) == t:
                            for c, b in conds:
                                wants(P, f2, c, b, out, depth + 1)
                        elif conds:
                            wants(P, f2, conds[0][0], not conds[0][1], out, depth + 1)
                    else:
                        wants(P, f2, v, t, out, depth + 1)
            return
        for x in e.args():
            anyof(fr_of, x, out)
        return
    if e.k in ("Member", "Ref", "Sub"):
        return put(fr_of, e, t, out)
    anyof(fr_of, e, out)


def controlling(n):
    """if conditions above a node, innermost first, with the branch taken"""
    out = []
    x = n
    for a in n.ancestors():
        if a.k == "If" and len(a.c) > 1:
            kids = [c for c in a.c if c is not None]
            if x is not kids[0]:
                cond = kids[0]
                out.append((cond, x is kids[1]))
        x = a
    return out


def put(fr_of, e, t, out):
    p = fr_of(e)
    if p and p[0] in ("this", "S"):
        out.add((p[:2], "T" if t else "F"))


def anyof(fr_of, e, out):
    for x in e.walk():
        if x.k == "Member" and not x.d.get("meth"):
            p = fr_of(x)
            if p and p[0] in ("this", "S"):
                out.add((p[:2], "*"))


def in_loop(n):
    return any(a.k in ("While", "For", "Do", "ForRange") for a in n.ancestors())


def loop_of(n):
    for a in n.ancestors():
        if a.k in ("While", "Do", "For"):
            return a
    return None


def loop_cond(a):
    if a.k == "While":
        k = [c for c in a.c if c is not None]
        return k[-2] if len(k) >= 2 else None
    if a.k == "Do":
        return a.c[-1]
    if a.k == "For":
        return a.c[1] if len(a.c) == 4 else None
    return None


def in_cond(k):
    """is the call (part of) the condition of a loop, or does its result decide whether a loop goes on"""
    a = loop_of(k)
    if a is None:
        return False
    c = loop_cond(a)
    if c is not None and any(x is k for x in c.walk()):
        return True
    for x in a.walk():
        if x.k == "If" and any(y is k for y in [z for z in x.c if z is not None][0].walk()) and any(y.k in ("Break", "Return", "Continue") for y in x.walk()):
            return True
    return False


class Wait:
    """one blocking wait: cv, mutexes, the condition (member, want)"""

    def __init__(self, cv, n, mutexes, cond, root):
        self.cv, self.n, self.mutexes, self.cond, self.root = cv, n, mutexes, cond, root
        self.polled = set()   # members the waiting thread also tests outside its waits


def collect_waits(ctx, P, cls, roots, rid, C):
    """roots: (root, name, waits dict); checks that each wait re-checks its condition"""
    out = []
    for root, who, waits in roots:
        for (cv, n), v in waits.items():
            cond = set()
            mu = set()
            for ms, others, fr, pred, h in v:
                mu |= {m for m in ms}
            fr, pred = v[0][2], v[0][3]
            key = "%s.%s:%s" % (cls, n.fn.n or "task", str(cv[-1]).split("::")[-1])
            ctx.check(bool(mu), rid, key + ":mutex", n.loc(), "the wait in %s does not hold the lock it waits with" % who)
            if pred is not None:
                rets = [x for x in pred.walk() if x.k == "Return" and x.c]
                for x in rets:
                    wants(P, FPaths(pred, {}, fr.paths).of, x.c[0], True, cond)
                ctx.ok(rid, "%s: condition given to the wait" % n.loc())
            else:
                a = loop_of(n)
                if a is not None:
                    c = loop_cond(a)
                    if c is not None and strip(c).cv is None:
                        wants(P, fr.paths.of, c, False, cond)
                    # waiting in a loop that is left from inside
                    else:
                        for x in a.walk():
                            if x.k == "If" and any(y.k in ("Break", "Return") for y in x.walk()):
                                wants(P, fr.paths.of, [k for k in x.c if k is not None][0], True, cond)
                    ctx.check(bool(cond), rid, key + ":recheck", n.loc(), "a wake-up without a change of the condition ends the wait in %s" % who)
                else:
                    # the caller has to ask again
                    sites = [(f, k) for f, k in P.callers().get(n.fn.u, ()) if not f.q.startswith("ffunit::")]
                    bad = [k for f, k in sites if not in_cond(k)]
                    ctx.check(not bad, rid, key + ":recheck", n.loc(), "a wake-up without a change of the condition ends the wait; %s does not wait in a loop" %
                              (bad[0].loc() if bad else ""))
                    for c, b in controlling(n):
                        wants(P, fr.paths.of, c, not b, cond)
            out.append(Wait(cv, n, mu, cond, root))
    return out


def write_kind(fr, n):
    """(path, T/F/*) of a change of a member by this node"""
    if n.k == "Assign" or n.k == "Call" and n.op and n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">=") and len(n.args()) == 2:
        a = n.c if n.k == "Assign" else n.args()
        l, r = strip(a[0]), strip(a[1])
        if n.op == "=":
            k = "*"
            if r is not None and r.cv is not None:
                k = "T" if r.cv else "F"
            elif r is not None and r.k in ("Construct", "InitList") and not r.args():
                k = "F"
        else:
            k = {"+=": "T", "|=": "T", "-=": "F", "&=": "F"}.get(n.op, "*")
        return fr.of(l), k
    if n.k == "Un" and n.op in ("++", "--") or n.k == "Call" and n.op in ("++", "--") and n.args():
        return fr.of(n.c[0] if n.k == "Un" else n.args()[0]), "T" if n.op == "++" else "F"
    if n.k == "Call" and n.obj is not None:
        if n.name in GROW:
            return fr.of(n.obj), "T"
        if n.name in SHRINK:
            return fr.of(n.obj), "F"
        if n.name == "store" and n.args():
            v = strip(n.args()[0])
            return fr.of(n.obj), "*" if v is None or v.cv is None else "T" if v.cv else "F"
        if n.name in ("swap", "exchange", "assign", "resize", "fetch_add", "fetch_sub"):
            return fr.of(n.obj), {"fetch_add": "T", "fetch_sub": "F"}.get(n.name, "*")
    return None, None


class Wake(Inter):
    """changes of waited-for conditions that have not been followed by a wake-up yet"""
    maxdepth = 14

    def __init__(self, P, C, vars, skip):
        Inter.__init__(self, P)
        self.C, self.vars = C, vars
        self.skip_recs = skip
        self.names = {p[-1].split("::")[-1] for p in vars}
        self.bad = {}
        self.turn = {}        # cv -> atomic members the woken thread also polls: whether it waits at all depends on the hand-over of the turn
        self.ignored = set()
        self.seen = set()

    def skip(self, g):
        return g.recn in self.skip_recs

    def is_event(self, n, fn):
        if n.k == "Member" and n.name in self.names:
            return True
        return n.k == "Call" and self.C.call_kind(n) in ("cvwait", "notify")

    def wants(self, kind, n, fn):
        return kind == "S" and n.k in ("Assign", "Un", "Call")

    def bind(self, fr, call, g):
        fp = Inter.bind(self, fr, call, g)
        if call.k == "Construct":
            fp.env["this"] = ("?",)
        return fp

    def event(self, fr, kind, n, st):
        if kind != "S":
            return st
        if n.k == "Call":
            ck = self.C.call_kind(n)
            if ck == "notify":
                cv = fr.of(n.obj)
                return frozenset(x for x in st if x[0] != cv)
            if ck == "cvwait":
                for cv, w, p in st:
                    self.bad.setdefault((cv, w), "the thread waits at %s" % n.loc())
                return frozenset()
        p, k = write_kind(fr, n)
        if p and p[:2] in self.vars and (n not in self.ignored):
            self.seen.add((n, p[:2]))
            new = set()
            for cv, want in self.vars[p[:2]]:
                if p[:2] in self.turn.get(cv, ()):
                    continue
                if want == "*" or k == "*" or want == k:
                    new.add((cv, n, p[:2]))
            return st | frozenset(new)
        return st

    def edge(self, fr, B, i, st):
        if not st:
            return st
        c = fr.fn.cfg.cond(B)
        if c is None or len(B.s) != 2:
            return st
        leaf, neg = leaf_cond(c)
        if leaf is None:
            return st
        out = set()
        wants(self.P, fr.paths.of, leaf, (i == 0) != neg, out)
        for p, v in out:
            # the condition is known to be false: nobody needs to be woken
            off = {cv for cv, want in self.vars.get(p, ()) if want != "*" and v != "*" and v != want}
            if off:
                st = frozenset(x for x in st if x[0] not in off)
        return st


def wake(ctx, P, cls, waits, roots, conc, may_wait, rid, C, skip):
    """roots: (root, name, start() running an Inter over it, accesses)"""
    for root, who, go, acc, nots in roots:
        vars = {}
        for w in waits:
            if conc(root, w.root):
                for p, want in w.cond:
                    vars.setdefault(p, set()).add((w.cv, want))
        if not vars:
            continue
        A = Wake(P, C, vars, skip)
        # changes while no waiting thread exists
        for a in acc:
            pass
        A.ignored = set()
        live = {}
        for a in acc:
            if a.write and a.path[:2] in vars:
                n = a.node
                while n.p is not None and n.p.k in ("Cast", "Member", "Sub"):
                    n = n.p
                tgt = n.p
                ws = [w for w in waits if conc(root, w.root) and any(p == a.path[:2] for p, _ in w.cond)]
                alive = any(may_wait(root, a, w) for w in ws)
                live.setdefault(tgt, []).append(alive)
                if alive:
                    p, k = (a.path[:2], None)
                    if tgt is not None:
                        q, k = write_kind(_F(a), tgt)
                    for w in ws:
                        if not may_wait(root, a, w):
                            continue
                        wantset = {x for pp, x in w.cond if pp == a.path[:2]}
                        if k is None or k == "*" or "*" in wantset or k in wantset:
                            ctx.check(bool(a.held & w.mutexes), rid, "%s.%s:%s:lock" % (cls, short1(a.path), a.node.fn.n or "task"), a.node.loc(),
                                      "'%s', which %s waits for (%s), is changed without the lock of that wait: the wake-up can be lost" %
                                      (short1(a.path), cv_name(w.cv), w.n.loc()))
        for cv in {w.cv for w in waits}:
            A.turn[cv] = set().union(*[w.polled for w in waits if w.cv == cv and w.root != root] or [set()])
        A.ignored = {n for n, v in live.items() if n is not None and not any(v)}
        end = go(A)
        for cv, n, p in end or ():
            A.bad.setdefault((cv, n), "the thread ends")
        done = set()
        for n, p in A.seen:
            for cv, want in vars[p]:
                key = "%s.%s:%s:%s" % (cls, short1(p), n.fn.n or "task", cv_name(cv))
                b = A.bad.get((cv, n))
                ctx.check(b is None, rid, key, n.loc(), "'%s' is changed in %s but %s before %s is notified" % (short1(p), who, b, cv_name(cv)))
        # one wake-up is enough only for one waiting thread, or when the woken thread takes what it was woken for
        for (cv, n), hs in nots.items():
            if n.name != "notify_one":
                continue
            ws = {w.root for w in waits if w.cv == cv and w.root != root}
            ws |= {w.root for w in waits if w.cv == cv and w.root == root and conc(root, root)}
            ctx.ok(rid, "%s: notify_one" % n.loc())
        for (n, p) in A.seen:
            for cv, want in vars[p]:
                ws = [w for w in waits if w.cv == cv and any(q == p for q, _ in w.cond)]
                multi = [w for w in ws if conc(w.root, w.root)]
                if multi and not any(taken(w, p) for w in multi):
                    alls = [k for (c, k), _ in nots.items() if c == cv and k.name == "notify_all"]
                    ctx.check(bool(alls), rid, "%s.%s:all" % (cls, short1(p)), n.loc(), "several threads wait for '%s' but only one is woken" % short1(p))


def at_wait(n, C):
    return any(a.k == "Call" and C.call_kind(a) == "cvwait" for a in n.ancestors())


class _F:
    """path lookup of an access that was already resolved"""

    def __init__(self, a):
        self.a = a

    def of(self, n):
        return self.a.path


def taken(w, p):
    """does the waiting thread change the member itself after it was woken"""
    f = w.n.fn
    while f.lam and f.parent_fn is not None and not any(x is w.n for x in f.walk()):
        f = f.parent_fn
    for n in f.walk():
        q, k = write_kind(FPaths(f, {}), n)
        if q and len(q) > 1 and q[1] == p[1] and n.l > w.n.l:
            return True
    return False


def short1(p):
    return str(p[1]).split("::")[-1]


def cv_name(cv):
    return str(cv[-1]).split("::")[-1]


def run(ctx):
    ctx.rule("order", "no cycle among the orders in which locks are taken")
    ctx.rule("hold", "no wait, task submission, black-box call or reconstruction step while a lock is held")
    ctx.rule("wait", "every wait holds its lock and re-checks its condition")
    ctx.rule("wake", "every change that can fulfil a waited-for condition is made under the lock of the wait and followed by a wake-up")
    cfgs = ("default", "flint", "mpi", "flintmpi") if ctx.thorough else ("default", "mpi")
    for cfg, P in load(cfgs).items():
        G, memo = Order(), {}
        O = Obj(P)
        pairs(ctx, P, O)
        for M in models(P, "mpi" in cfg, True):
            order(ctx, G, M, O, memo)
            blocking(ctx, M, "hold")
            T = M.T
            waits = collect_waits(ctx, P, M.cls, [(r, T.name(r), d["waits"]) for r, d in T.by_root.items()], "wait", M.C)
            ctx.need("wait", len(waits), "waits of " + M.cls)
            for w in waits:
                inside = set()
                for x in w.n.walk():
                    if x.k == "Lambda":
                        inside |= {g.u for g in P.lams.get(x.d["lam"], [])}
                w.polled = {a.path[:2] for a in T.by_root[w.root]["access"].values() if not a.write and a.node.fn.u not in inside and not at_wait(a.node, M.C)}
                w.polled = {p for p in w.polled if any(is_atomic(a.node.t) for a in T.by_root[w.root]["access"].values() if a.path == p)}
            roots = []
            for r, d in T.by_root.items():
                roots.append((r, T.name(r), starter(M, r), list(d["access"].values()), d["notifies"]))

            def may(root, a, w, T=T):
                return w.root[0] != "task" or root[0] != "driver" or w.root[1] in T.live_tasks(a.live)
            wake(ctx, P, M.cls, waits, roots, lambda r, s, M=M: M.concurrent(r, s), may, "wake", M.C, M.C.skip_recs)
        pool(ctx, P, G)
        for a, b in sorted(G.edges):
            if a:
                ctx.ok("order", "%s before %s (%s)" % (a, b, G.edges[(a, b)][0]))
            else:
                ctx.ok("order", "%s alone (%s)" % (b, G.edges[(a, b)][0]))
        for a, b, path in G.cycles():
            where, how = G.edges[(a, b)]
            if a == b:
                ctx.bad("order", "%s>%s" % (a, b), where, "%s is taken while it is already held (%s)" % (a, how))
            else:
                ctx.bad("order", "%s>%s" % (a, b), where, "%s is taken while %s is held (%s), but elsewhere the order is %s" % (b, a, how, " > ".join(path)))


def starter(M, r):
    def go(A):
        A.memo = {}
        if r[0] == "driver":
            out = frozenset()
            for f in M.C.config_roots:
                e = A.run(f, frozenset())
                out |= e or frozenset()
            return out
        g = M.P.fns.get(r[1])
        if g is None:
            return frozenset()
        if r[0] == "user":
            return A.run(g, frozenset()) or frozenset()
        paths = list(M.C.task_of[r[1]].values())[0]
        fr = Frame(g, FPaths(g, {k: v for k, v in paths.env.items() if k == "this" or v[0] != "L"}, paths))
        return A.run_frame(fr, frozenset()) or frozenset()
    return go


def pool(ctx, P, G):
    """the pool's own lock and waits"""
    C = Pool(P)
    C.atomics = True
    waits, roots, idx = [], [], 0
    wl = []
    seen = {}
    for name, f in pool_roots(P):
        if f.n in seen and name == f.n and not f.lam and seen[f.n] >= 1:
            continue  # further instantiations of the same member template
        if name == "worker" and seen.get("worker", 0) >= 1:
            continue
        seen[name] = seen.get(name, 0) + 1
        C.access, C.memo, C.waits, C.notifies, C.acquire, C.calls, C.submits = {}, {}, {}, {}, {}, {}, {}
        fr = Frame(f, FPaths(f, {"this": ("this",)}))
        C.run_frame(fr, INIT)
        r = (name, f.u)
        wl.append((r, name, dict(C.waits)))
        roots.append((r, name, (lambda A, f=f: A.run_frame(Frame(f, FPaths(f, {"this": ("this",)})), frozenset())), [a for a in C.access.values() if len(a.path) < 3 or a.path[2] == "[]"], dict(C.notifies)))
        for (m, held), (n, ch) in C.acquire.items():
            if "ThreadPool" not in n.fn.q or len(m) != 2:
                continue
            G.edges.setdefault(("", lname("ThreadPool", m)), (n.loc(), ch))
            for x in real(held):
                G.add(lname("ThreadPool", x), lname("ThreadPool", m), n.loc(), ch)
        for (cv, n), v in C.waits.items():
            bad = [o for _, o, _, _, _ in v if real(o)]
            ctx.check(not bad, "hold", "ThreadPool.%s:wait" % name, n.loc(), "the pool waits while another lock is held")
        for (w, n), v in C.calls.items():
            if w == "join":
                ctx.check(not any(real(x[0]) for x in v), "hold", "ThreadPool.%s:join" % name, n.loc(), "a thread is joined while the pool's lock is held")
    waits = collect_waits(ctx, P, "ThreadPool", wl, "wait", C)
    ctx.need("wait", len(waits), "waits of the pool")
    # one thread drives the pool, its own threads run the worker; any task may submit
    # the thread that owns the pool waits for it, constructs and destroys it; any thread may submit
    owner = {r for r, name, w in wl if w and name != "worker"} | {r for r, name, _ in wl if name.startswith("~") or name == "ThreadPool"}

    def conc(r, s):
        if r[0] == "worker" or s[0] == "worker":
            return True
        return not (r in owner and s in owner)
    wake(ctx, P, "ThreadPool", waits, roots, conc, lambda root, a, w: True, "wake", C, set())
