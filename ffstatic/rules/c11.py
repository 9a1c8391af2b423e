"""C11: every submitted task runs exactly once, and shutdown waits for it."""
from ..core import *
from ..core import strip
from ..conc import *
from ..conc import method_of
from .c08 import pool_roots

TECHNIQUE = "typestate analysis of the task queue over all paths of the pool's methods and its threads' function (task submitted, queued, taken, run), with lock and idle-flag state"
NOTE = ("Exactly-once is per path: a submission queues or runs its task once, a thread runs what it took once, outside the lock, marked as busy. That a queued task is eventually "
        "taken (wake-ups) is C09. Exceptions thrown by tasks are the user's.")

ADD = {"push_back": "back", "emplace_back": "back", "push_front": "front", "emplace_front": "front", "push": "back", "emplace": "back"}
POP = {"pop_front": "front", "pop_back": "back", "pop": "front"}
READ = {"front": "front", "back": "back", "top": "front"}
CALLABLE = ("std::function<", "packaged_task<")


class Roles:
    def __init__(self, P):
        r = P.rec("ThreadPool")[0]
        self.q = self.threads = self.idle = None
        self.bools = []
        for f in r.fields:
            t = f["t"] if isinstance(f, dict) else f.t
            n = f["n"] if isinstance(f, dict) else f.n
            if "function<" in t:
                self.q = n
            elif "thread" in t and "<" in t:
                self.threads = n
            elif "vector<bool" in t or "vector<char" in t:
                self.idle = n
            elif t == "bool" or t == "std::atomic<bool>":
                self.bools.append(n)


class St:
    """held guards, facts, end read but not popped, tasks in hand, own idle flag, tasks queued or run, facts at the last unlock"""
    __slots__ = ("held", "facts", "read", "hand", "idle", "n", "last", "_k")

    def __init__(self, held=frozenset(), facts=frozenset(), read=None, hand=0, idle=None, n=0, last=frozenset()):
        self.held, self.facts, self.read, self.hand, self.idle, self.n, self.last = held, facts, read, hand, idle, n, last
        self._k = (held, facts, read, hand, idle, n, last)

    def __hash__(self):
        return hash(self._k)

    def __eq__(self, o):
        return self._k == o._k

    def put(self, **kw):
        d = dict(zip(self.__slots__, self._k))
        d.update(kw)
        d.pop("_k", None)
        return St(**d)


def put_fact(facts, atom, v):
    return frozenset([x for x in facts if x[0] != atom] + ([(atom, v)] if v is not None else []))


class PoolAI(Inter):
    def __init__(self, P, R):
        Inter.__init__(self, P)
        self.R = R
        self.viol = []
        self.seen = []
        self.idle_fns = set()
        self.ends = {}
        self.mode = None

    # ---- relevance
    def mine(self, g):
        return g.recn == "ThreadPool" or "ThreadPool::" in strip_targs(g.q) and g.lam

    def skip(self, g):
        return not self.mine(g)

    def is_event(self, n, fn):
        if not self.mine(fn):
            return False
        return n.k == "Member" or n.k == "Decl" and any(is_guard(v.t) for v in n.vars) or n.k == "Call" and n.op == "()"

    def wants(self, kind, n, fn):
        return kind in ("D", "V") or kind == "S" and n.k in ("Call", "Assign", "Decl", "Return", "Construct")

    # ---- conditions
    def member(self, fr, n):
        p = fr.of(n)
        return p[1] if len(p) == 2 and p[0] == "this" else None

    def alts(self, fr, e, t, depth=0):
        """alternative fact sets under which e has truth value t"""
        e = strip(e)
        if e is None or depth > 10:
            return [frozenset()]
        if e.k == "Un" and e.op == "!":
            return self.alts(fr, e.c[0], not t, depth + 1)
        if e.k == "Call" and e.op == "!" and len(e.args()) == 1:
            return self.alts(fr, e.args()[0], not t, depth + 1)
        if e.k == "Bin" and e.op in ("&&", "||"):
            if (e.op == "&&") == t:
                return [a | b for a in self.alts(fr, e.c[0], t, depth + 1) for b in self.alts(fr, e.c[1], t, depth + 1)]
            return self.alts(fr, e.c[0], t, depth + 1) + [a | b for a in self.alts(fr, e.c[0], not t, depth + 1) for b in self.alts(fr, e.c[1], t, depth + 1)]
        if e.k == "Bin" and e.op in ("==", "!=", "<", ">", "<=", ">="):
            a, b, op = strip(e.c[0]), strip(e.c[1]), e.op
            if a is not None and a.cv is not None:
                a, b, op = b, a, {">": "<", "<": ">", ">=": "<=", "<=": ">="}.get(op, op)
            if b is not None and b.cv is not None and a is not None:
                if a.t == "bool" and op in ("==", "!="):
                    return self.alts(fr, a, (bool(b.cv) == (op == "==")) == t, depth + 1)
                if a.k == "Call" and a.obj is not None and a.name == "size":
                    m = self.member(fr, a.obj)
                    zero = {("==", 0): True, ("!=", 0): False, (">", 0): False, ("<=", 0): True, ("<", 1): True, (">=", 1): False}.get((op, b.cv))
                    if m is not None and zero is not None:
                        return [frozenset([(("empty", m), zero == t)])]
            return [frozenset()]
        if e.k == "Call" and e.obj is not None and e.name in ("empty", "size"):
            m = self.member(fr, e.obj)
            if m is not None:
                return [frozenset([(("empty", m), t if e.name == "empty" else not t)])]
        if e.k == "Call" and e.obj is not None and e.name in ("load", "operator bool") or e.k == "Member":
            m = self.member(fr, e.obj if e.k == "Call" else e)
            if m is not None and m in self.R.bools:
                return [frozenset([(("flag", m), t)])]
        if e.k == "Call":
            g = self.P.callee(e)
            if g is not None and g.recn == "ThreadPool" and g.ret == "bool" and any(x.k == "Member" and x.name == self.R.idle for x in g.walk()):
                self.idle_fns.add(g.u)
                return [frozenset([("idle", t)])]
            if g is not None and self.mine(g) and g.ret == "bool":
                rs = [x for x in g.walk() if x.k == "Return" and x.fn is g and x.c]
                if len(rs) == 1:
                    return self.alts(Frame(g, self.bind(fr, e, g), fr, e), rs[0].c[0], t, depth + 1)
        if e.k == "Ref":
            v = fr.paths.decls.get(e.d["d"])
            if v is not None and v.init is not None and "bool" in v.t and self.value_var(fr.fn, v):
                return self.alts(fr, v.init, t, depth + 1)
        return [frozenset()]

    def value_var(self, fn, v):
        """a bool local that is set once: its condition holds as long as the lock is held"""
        return not any(n.k == "Assign" and strip(n.c[0]).k == "Ref" and strip(n.c[0]).d["d"] == v.d for n in fn.walk())

    def assume(self, fr, st, e, t):
        out = set()
        al = self.alts(fr, e, t)
        for s in st:
            for a in al:
                f = dict(s.facts)
                if any(k in f and f[k] != v for k, v in a):
                    continue
                f.update(dict(a))
                out.add(s.put(facts=frozenset(f.items())))
        return frozenset(out)

    def edge(self, fr, B, i, st):
        c = fr.fn.cfg.cond(B)
        if c is None or len(B.s) != 2:
            return st
        if strip(c) is not None and strip(c).cv is not None:
            return st
        leaf, neg = leaf_cond(c)
        if leaf is None:
            return st
        s = self.assume(fr, st, leaf, (i == 0) != neg)
        return s if s else None

    # ---- events
    def bad(self, key, n, msg):
        self.viol.append((key, n.loc(), msg))

    def release(self, s, own):
        h = frozenset(x for x in s.held if x != own)
        if h == s.held or h:
            return s.put(held=h)
        return self.unlocked(s).put(held=h)

    def unlocked(self, s):
        if s.read is not None:
            self.viol.append(("take", self.where, "the lock is released between reading a task and removing it: another thread runs it as well"))
        if s.hand and s.idle is not False and self.mode == "worker":
            self.viol.append(("idle", self.where, "a thread that took a task is still marked idle when the lock is released: discarding work returns while the task runs"))
        keep = frozenset(x for x in s.facts if x[0] == ("empty", self.R.threads))
        return s.put(facts=keep, last=s.facts, read=None)

    def event(self, fr, kind, n, st):
        if kind == "D":
            self.where = fr.fn.loc()
            return frozenset(self.release(s, n) if n in s.held else s for s in st)
        if kind == "V":
            v = fr.paths.decls.get(n)
            return self.decl(fr, [v], st) if v is not None else st
        if kind in ("exit", "call"):
            return st
        self.where = n.loc()
        if n.k == "Decl":
            return self.decl(fr, n.vars, st)
        if n.k == "Return":
            for s in st:
                self.returns.append((n, s, fr))
            return st
        if n.k == "Assign":
            return self.assign(fr, n, strip(n.c[0]), strip(n.c[1]), st)
        if n.k != "Call":
            return st
        if n.op == "=" and len(n.args()) == 2:
            return self.assign(fr, n, strip(n.args()[0]), strip(n.args()[1]), st)
        cls, m = method_of(n)
        if m in ("wait", "wait_for", "wait_until") and "condition_variable" in cls:
            return self.cvwait(fr, n, st)
        if m in ("lock", "unlock") and cls in GUARDS:
            own = strip(n.obj)
            d = own.d.get("d") if own is not None and own.k == "Ref" else None
            if m == "unlock":
                return frozenset(self.release(s, d) for s in st)
            return frozenset(s.put(held=s.held | {d}) for s in st)
        if m == "swap" and n.obj is not None and self.R.q in (self.member(fr, n.obj), self.member(fr, n.args()[0]) if n.args() else None):
            return self.emptied(fr, n, st)
        if n.obj is not None and self.member(fr, n.obj) == self.R.q:
            return self.queue(fr, n, m, st)
        if n.op == "()" and n.args():
            o = n.args()[0]
            if any(c in o.t for c in CALLABLE) or self.is_task(fr, o):
                return self.run_task(fr, n, st)
        if n.name in ("invoke",) and n.args() and (any(c in n.args()[0].t for c in CALLABLE) or self.is_task(fr, n.args()[0])):
            return self.run_task(fr, n, st)
        return st

    def is_task(self, fr, o):
        """the callable handed to the enclosing pool function"""
        o = strip(o)
        if o is None:
            return False
        if o.k == "Lambda":
            return False
        p = fr.of(o)
        t = unconst(o.t)
        return "lambda" in t and p[0] == "L" or o.k == "Ref" and any(v.d == o.d["d"] for v in fr.fn.params) and "lambda" in t

    def decl(self, fr, vs, st):
        for v in vs:
            if v is None or not is_guard(v.t) or v.init is None or v.t.rstrip().endswith("&"):
                continue
            c = strip(v.init)
            if any("defer_lock" in a.t for a in c.args()):
                continue
            st = frozenset(s.put(held=s.held | {v.d}) for s in st)
        return st

    def cvwait(self, fr, n, st):
        a = n.args()
        pred = None
        for x in a[1:]:
            y = strip(x)
            while y is not None and y.k in ("Construct", "Cast") and y.args():
                y = strip(y.args()[0])
            if y is not None and y.k == "Lambda":
                pred = (self.P.lams.get(y.d["lam"]) or [None])[0]
            elif y is not None and y.k == "Ref":
                v = fr.paths.decls.get(y.d["d"])
                z = strip(v.init) if v is not None and v.init is not None else None
                if z is not None and z.k == "Lambda":
                    pred = (self.P.lams.get(z.d["lam"]) or [None])[0]
        out = set()
        for s in st:
            if self.mode == "worker":
                if s.hand:
                    self.bad("take", n, "a thread waits for the next task before it has run the one it took")
                if s.idle is False:
                    self.bad("idle", n, "a thread waits for work while it is marked as busy: discarding work never returns")
            s2 = self.unlocked(s)
            out.add(s2)
        st = frozenset(out)
        if pred is not None:
            rs = [x for x in pred.walk() if x.k == "Return" and x.fn is pred and x.c]
            if len(rs) == 1:
                env = {"this": ("this",)}
                st = self.assume(Frame(pred, FPaths(pred, env, fr.paths), fr, n), st, rs[0].c[0], True)
        return st

    def assign(self, fr, n, l, r, st):
        p = fr.of(l)
        if p[:2] == ("this", self.R.idle) and len(p) > 2:
            v = r.cv if r is not None else None
            if v is None:
                return frozenset(s.put(idle=None) for s in st)
            for s in st:
                if v and s.hand and self.mode == "worker":
                    self.bad("idle", n, "a thread marks itself idle while it holds a task")
                if not s.held:
                    self.bad("idle", n, "the idle flag is changed without the pool's lock")
            return frozenset(s.put(idle=bool(v)) for s in st)
        if len(p) == 2 and p[0] == "this":
            if p[1] == self.R.q:
                return self.emptied(fr, n, st)
            if p[1] in self.R.bools:
                v = r.cv if r is not None else None
                self.seen.append(("flag", p[1], v, n, [s for s in st]))
                return frozenset(s.put(facts=put_fact(s.facts, ("flag", p[1]), None if v is None else bool(v))) for s in st)
        return st

    def emptied(self, fr, n, st):
        self.seen.append(("discard", n))
        for s in st:
            if not s.held:
                self.bad("discard", n, "the queue is emptied without the pool's lock")
        return frozenset(s.put(facts=put_fact(s.facts, ("empty", self.R.q), True)) for s in st)

    def queue(self, fr, n, m, st):
        e = ("empty", self.R.q)
        if m in ("insert", "erase", "resize", "assign"):
            a = [strip(x) for x in n.args()]
            pos = a[0].name if a and a[0] is not None and a[0].k == "Call" else None
            if m == "insert" and pos in ("begin", "cbegin", "end", "cend"):
                return self.enqueue(fr, n, "front" if pos in ("begin", "cbegin") else "back", a[1:], st)
            if m == "erase" and pos in ("begin", "cbegin") and len(a) == 1:
                return self.pop(fr, n, "front", st)
            self.odd = True
            return frozenset(s.put(facts=put_fact(s.facts, e, None)) for s in st)
        if m == "clear":
            return self.emptied(fr, n, st)
        if m in ADD:
            return self.enqueue(fr, n, ADD[m], n.args(), st)
        if m in READ:
            self.ends.setdefault("take", {})[READ[m]] = n
            for s in st:
                if not s.held:
                    self.bad("take", n, "the queue is read without the pool's lock")
                if dict(s.facts).get(e) is not False:
                    self.bad("take", n, "a task is taken from a queue that may be empty")
            return frozenset(s.put(read=READ[m]) for s in st)
        if m in POP:
            return self.pop(fr, n, POP[m], st)
        return st

    def pop(self, fr, n, end, st):
        e = ("empty", self.R.q)
        for s in st:
            if not s.held:
                self.bad("take", n, "a task is removed without the pool's lock")
            if s.read != end:
                self.bad("take", n, "the task removed is not the one that was read: one is lost and one runs twice")
            if s.hand:
                self.bad("take", n, "a second task is taken before the first has run")
        return frozenset(s.put(read=None, hand=1, facts=put_fact(s.facts, e, None)) for s in st)

    def enqueue(self, fr, n, end, args, st):
        e, te = ("empty", self.R.q), ("empty", self.R.threads)
        self.ends.setdefault(self.root, {})[end] = n
        for s in st:
            if not s.held:
                self.bad("submit", n, "a task is queued without the pool's lock")
            if dict(s.facts).get(te) is not False:
                self.bad("submit", n, "a task is queued although the pool may have no threads: nobody runs it")
        self.seen.append(("enqueue", n, args))
        return frozenset(s.put(n=min(s.n + 1, 3), facts=put_fact(s.facts, e, False)) for s in st)

    def run_task(self, fr, n, st):
        self.seen.append(("run", n))
        out = set()
        for s in st:
            if s.held:
                self.bad("run", n, "a task runs while the pool's lock is held")
            if self.mode == "worker":
                if s.hand != 1:
                    self.bad("run", n, "a thread runs a task it did not just take from the queue")
                if s.idle is not False:
                    self.bad("idle", n, "a task runs while its thread is marked idle")
                out.add(s.put(hand=0))
            else:
                if self.mode == "submit" and dict(s.facts).get(("empty", self.R.threads)) is not True:
                    self.bad("submit", n, "the caller runs the task itself although the pool may have threads")
                out.add(s.put(n=min(s.n + 1, 3)))
        return frozenset(out)

    def go(self, f, mode, root):
        self.mode, self.root = mode, root
        self.viol, self.seen, self.returns, self.memo, self.odd, self.where = [], [], [], {}, False, f.loc()
        fr = Frame(f, FPaths(f, {"this": ("this",)}))
        return self.run_frame(fr, frozenset([St()]))


def lambdas(f):
    return [n for n in f.walk() if n.k == "Lambda"]


def run(ctx):
    ctx.rule("submit", "a submission queues its task once (at the end its priority asks for) or, without threads, runs it once")
    ctx.rule("run", "a pool thread runs each task it takes exactly once, outside the lock")
    ctx.rule("take", "tasks are read and removed together, under the lock, from a queue that is not empty")
    ctx.rule("idle", "a thread is marked busy from taking a task until it has run")
    ctx.rule("stop", "threads end only when the pool is stopped and the queue is empty; destruction stops and joins all threads")
    ctx.rule("discard", "discarding work returns only when the queue is empty and all threads are idle; nothing else removes tasks")
    P = load(("default",))["default"]
    R = Roles(P)
    if not (R.q and R.threads):
        raise AnalysisError("no task queue or threads among the members of ThreadPool")
    roots = pool_roots(P)
    names = {n for n, _ in roots}
    seen = {}
    A = PoolAI(P, R)
    prio = {}
    nsub = 0
    stopflag = None
    for name, f in roots:
        k = seen.get(name, 0)
        seen[name] = k + 1
        if k >= (2 if not ctx.thorough else 40) and name != "worker" or name == "worker" and k >= 1:
            continue
        callable_param = any("lambda" in v.t or "function<" in v.t or v.t.startswith(("Task", "F ")) for v in f.params)
        if name == "worker":
            worker(ctx, P, A, f)
        elif callable_param:
            nsub += 1
            submit(ctx, P, A, f, name, prio)
        elif f.kind == "dtor":
            stopflag = dtor(ctx, P, A, f)
        elif f.kind == "ctor":
            A.go(f, None, name)
            flush(ctx, A, name, {"submit", "take", "discard"})
            ctor(ctx, P, A, f)
        else:
            ex = A.go(f, None, name)
            other(ctx, P, A, f, name, ex)
    ctx.need("submit", nsub, "methods that take a task")
    ctx.need("run", "worker" in names, "function of the pool's threads")
    ctx.need("stop", any(f.kind == "dtor" for _, f in roots), "destructor of the pool")
    # ends of the queue
    take = A.ends.get("take", {})
    if len(take) == 1:
        end = list(take)[0]
        for name, d in sorted(A.ends.items()):
            if name == "take":
                continue
            want = end if "prio" in name else ("back" if end == "front" else "front")
            for e, n in d.items():
                ctx.check(e == want, "submit", name + ":end", n.loc(), "%s tasks are queued at the %s, threads take from the %s" % ("priority" if "prio" in name else "ordinary", e, end))
    elif not take:
        ctx.bad("take", "end", P.rec("ThreadPool")[0].loc(), "no thread takes tasks from the queue")
    for u in sorted(A.idle_fns):
        idle_fn(ctx, P, P.fns[u], R)


def flush(ctx, A, name, rules):
    for key, where, msg in A.viol:
        ctx.bad(key, name, where, msg)


def submit(ctx, P, A, f, name, prio):
    ex = A.go(f, "submit", name)
    flush(ctx, A, name, None)
    if ex is None:
        return
    lost = [s for s in ex if s.n == 0]
    twice = [s for s in ex if s.n > 1]
    ctx.check(not lost, "submit", name + ":lost", f.loc(), "on a path through this method the task is neither queued nor run")
    ctx.check(not twice, "submit", name + ":twice", f.loc(), "on a path through this method the task is queued or run more than once")
    # wrappers around the task run it exactly once
    for n in lambdas(f):
        for g in P.lams.get(n.d["lam"], []):
            if g.cfg is None:
                continue
            v = list(A.seen)
            e2 = A.go(g, "wrapper", name)
            ok = e2 is not None and all(s.n == 1 for s in e2)
            ctx.check(ok, "submit", name + ":wrapper", n.loc(), "the wrapper around a task does not run it exactly once on every path")


def worker(ctx, P, A, f):
    ex = A.go(f, "worker", "worker")
    if A.odd:
        ctx.notes.append("worker: unusual queue operation, taking of tasks not fully decided")
    flush(ctx, A, "worker", None)
    runs = [n for k, n, *_ in A.seen if k == "run"]
    ctx.check(bool(runs), "run", "worker", f.loc(), "the pool's threads never run a task", "runs at %s" % (runs[0].loc() if runs else ""))
    ctx.ok("take", "worker: reads and removals followed on all paths")
    ctx.ok("idle", "worker: idle flag followed on all paths")
    for s in ex or ():
        d = dict(s.last)
        ctx.check(s.hand == 0, "run", "worker:exit", f.loc(), "a thread ends without running the task it took")
        ctx.check(d.get(("empty", A.R.q)) is True, "stop", "worker:drained", f.loc(), "a thread may end while tasks are queued: they never run")
        ctx.check(any(k[0] == "flag" and v for k, v in d.items() if isinstance(k, tuple)), "stop", "worker:stopped", f.loc(), "a thread may end although the pool is not being destroyed")


def other(ctx, P, A, f, name, ex):
    flush(ctx, A, name, None)
    dis = [n for k, n, *_ in A.seen if k == "discard"]
    ctx.check(not any(k == "enqueue" for k, *_ in A.seen) and not any(k == "run" for k, *_ in A.seen), "submit", name + ":other", f.loc(), "queues or runs tasks although none is given")
    if dis:
        if A.R.idle is None:
            ctx.notes.append("%s: idle threads are not recognised, discarding not decided" % name)
        else:
            ctx.check("kill" in name or "clear" in name or "discard" in name, "discard", name, dis[0].loc(), "removes queued tasks although it is not asked to discard work")
            for s in ex or ():
                d = dict(s.last) if not s.held else dict(s.facts)
                ctx.check(d.get(("empty", A.R.q)) is True, "discard", name + ":queue", f.loc(), "returns while tasks may still be queued")
                ctx.check(d.get("idle") is True, "discard", name + ":idle", f.loc(), "returns while a task may still be running")
    elif "kill" in name:
        ctx.bad("discard", name, f.loc(), "does not discard the queued tasks")
    for n, s, fr in A.returns:
        v = strip(n.c[0]) if n.c else None
        if fr.fn is f and name == "wait" and v is not None and v.cv is not None and not v.cv:
            ctx.check(dict(s.facts).get("idle") is True, "discard", name + ":false", n.loc(), "reports that no task is running although one may be")


def dtor(ctx, P, A, f):
    ex = A.go(f, None, "dtor")
    flush(ctx, A, "dtor", None)
    ctx.check(not any(k == "discard" for k, *_ in A.seen), "stop", "dtor:queue", f.loc(), "destroying the pool discards queued tasks")
    stop = [x for x in A.seen if x[0] == "flag" and x[2]]
    ctx.check(bool(stop) and all(s.held for x in stop for s in x[4]), "stop", "dtor:flag", f.loc(), "the pool is not stopped under its lock")
    # joins every thread
    js, ok = [], False
    todo, done = [f], set()
    while todo:
        g = todo.pop()
        if g.u in done:
            continue
        done.add(g.u)
        for n in g.walk():
            if n.k == "Call":
                h = P.callee(n)
                if h is not None and h.recn == "ThreadPool":
                    todo.append(h)
                if n.name == "detach":
                    ctx.bad("stop", "dtor:detach", n.loc(), "threads are left running when the pool is destroyed")
                if n.name == "join" and n.obj is not None:
                    js.append(n)
    for n in js:
        loop, cond = None, []
        for a in n.ancestors():
            if a.k == "If" and loop is None:
                cond.append(a)
            if a.k in ("For", "ForRange", "While") and loop is None:
                loop = a
            elif a.k == "If" and loop is not None:
                cond.append(a)
        lam = n.fn.lam
        joinable = all("joinable" in txt(c.c[0]) or "empty" in txt(c.c[0]) for c in cond if c.c and c.c[0] is not None)
        brk = [x for x in loop.walk() if x.k in ("Break", "Return")] if loop is not None else []
        full = True
        if loop is not None and loop.k == "For" and loop.c[0] is not None and loop.c[0].vars and loop.c[0].vars[0].init is not None:
            i0 = strip(loop.c[0].vars[0].init)
            full = i0.cv in (None, 0)
        if (loop is not None or lam) and joinable and not brk and full:
            ok = True
    ctx.check(ok, "stop", "dtor:join", f.loc(), "destroying the pool does not wait for all of its threads")
    return stop[0][1] if stop else None


def ctor(ctx, P, A, f):
    R = A.R
    t, i = [], []
    for n in f.walk():
        if n.k == "Call" and n.obj is not None and n.name in ADD and n.fn is f:
            m = strip(n.obj)
            if m is not None and m.k == "Member" and m.name in (R.threads, R.idle):
                loop = next((a for a in n.ancestors() if a.k in ("For", "ForRange", "While")), None)
                (t if m.name == R.threads else i).append((loop, [a for a in n.ancestors() if a.k == "If"]))
    if not t:
        ctx.notes.append("creation of the threads not decided")
        return
    if R.idle is not None and i:
        ctx.check(len(t) == len(i) and all(a[0] is b[0] and a[1] == b[1] for a, b in zip(t, i)), "idle", "ctor", f.loc(), "threads and idle flags are not created together")
    ctx.check(all(lp is not None and not ifs for lp, ifs in t), "stop", "ctor", f.loc(), "not every requested thread is created")


def idle_fn(ctx, P, f, R):
    """returns true only after every thread's flag was seen to be set"""
    elem = set()
    loops = []
    for n in f.walk():
        if n.k == "ForRange" and any(x.k == "Member" and x.name == R.idle for x in n.walk()):
            loops.append(n)
        if n.k in ("For", "While") and any(x.k == "Member" and x.name == R.idle for x in n.walk()):
            loops.append(n)
    std = [n for n in f.walk() if n.k == "Call" and n.name in ("all_of", "any_of", "none_of", "find", "count", "find_if", "accumulate", "count_if") and any(x.k == "Member" and x.name == R.idle for x in n.walk())]
    if std or len(loops) != 1:
        if std and std[0].name == "any_of" and not any(a.k == "Un" and a.op == "!" for a in std[0].ancestors()) and not lambdas_negate(P, std[0]):
            ctx.bad("discard", f.n, std[0].loc(), "one idle thread is enough")
        else:
            ctx.notes.append("%s: test for idle threads not decided" % f.n)
        return
    loop = loops[0]
    var = {v.d for n in loop.walk() for v in n.vars}

    def is_elem(e):
        e = strip(e)
        if e is not None and e.k == "Call" and e.name == "operator bool" and e.obj is not None:
            e = strip(e.obj)
        if e is None:
            return False
        if e.k == "Ref":
            return e.d["d"] in var
        return any(x.k == "Member" and x.name == R.idle for x in e.walk()) and not (e.k == "Call" and e.name in ("size", "empty", "begin", "end"))
    bad = None

    def edge(B, i, s):
        c = f.cfg.cond(B)
        if c is None or len(B.s) != 2:
            return s
        leaf, neg = leaf_cond(c)
        if leaf is not None and leaf.k in ("Ref", "Call", "Sub") and unconst(leaf.t).strip(" &") in ("bool", "std::_Bit_reference", "char", "std::vector<bool>::reference") and is_elem(leaf):
            if (i == 0) == neg:
                return s | {"busy"}
            return s | {"tested"}
        return s
    rets = []

    def transfer(kind, n, s):
        if kind == "S" and n.k == "Return":
            rets.append((n, s))
        return s
    forward(f, frozenset(), transfer, lambda a, b: a | b, edge)
    tested = False
    for n, s in rets:
        v = strip(n.c[0]) if n.c else None
        if v is None or v.cv is None:
            if not any(x.k == "Member" and x.name == R.idle for x in n.walk()):
                continue
            ctx.notes.append("%s: test for idle threads not decided" % f.n)
            return
        inside = any(a is loop for a in n.ancestors())
        if v.cv and "busy" in s:
            bad = bad or (n, "a busy thread is overlooked")
        if v.cv and inside:
            bad = bad or (n, "not every thread is looked at")
        tested = tested or bool(s & {"busy", "tested"})
    if not tested:
        ctx.notes.append("%s: test for idle threads not decided" % f.n)
        return
    ctx.check(bad is None, "discard", f.n, bad[0].loc() if bad else f.loc(), bad[1] if bad else "")


def lambdas_negate(P, call):
    for n in call.walk():
        if n.k == "Lambda":
            for g in P.lams.get(n.d["lam"], []):
                if any(x.k == "Un" and x.op == "!" for x in g.walk()):
                    return True
    return False
