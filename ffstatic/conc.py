"""Concurrency model: which locks are held at every access, acquisition, wait,
wake-up and task submission, for every thread kind the library has.

A state is a set of alternatives (held, facts, live):
  held   pairs (owner, mutex): owner is the guard object (or the mutex itself)
  facts  flags known to be false since a lock was taken (test-and-set flags act as locks)
  live   tasks of each pool that may be running (driver thread only)
"""
from .inter import *
from .core import strip

def norm(st):
    """one alternative per set of held locks and running tasks, with what is known in all its histories"""
    st = frozenset(st)
    if len(st) <= 8:
        return st
    d = {}
    for h, f, l in st:
        o = d.get((h, l))
        d[(h, l)] = f if o is None else o & f
    if len(d) <= 12:
        return frozenset((h, f, l) for (h, l), f in d.items())
    d = {}
    for h, f, l in st:
        o = d.get(h)
        d[h] = (f, l) if o is None else (o[0] & f, o[1] | l)
    return frozenset((h, f, l) for h, (f, l) in d.items())


def lasting(f):
    """facts that do not depend on a lock being held"""
    return frozenset(x for x in f if x[0] in ("cfg", "known"))


GUARDS = ("lock_guard", "unique_lock", "scoped_lock", "shared_lock")
SUBMIT = ("run_task", "run_priority_task", "run_packaged_task", "run_priority_packaged_task")
# std members that change the container itself
MUT = {"push_back", "emplace_back", "push_front", "emplace_front", "pop_front", "pop_back", "pop", "push", "emplace", "insert", "erase", "clear", "swap", "resize",
       "reserve", "assign", "shrink_to_fit", "merge", "extract", "splice", "remove", "remove_if", "sort", "reverse", "unique", "rehash", "try_emplace", "insert_or_assign",
       "append", "replace", "store", "exchange", "open", "close", "write"}


def base_type(t):
    t = t.strip()
    for p in ("const ", "volatile "):
        while t.startswith(p):
            t = t[len(p):]
    return t


def is_mutex(t):
    t = base_type(t).rstrip("& ")
    return t.split("<")[0].split("::")[-1] in ("mutex", "recursive_mutex", "timed_mutex", "shared_mutex", "shared_timed_mutex")


def is_guard(t):
    t = base_type(t).rstrip("& ")
    return t.split("<")[0].split("::")[-1] in GUARDS


def is_cv(t):
    t = base_type(t).rstrip("& ")
    return "condition_variable" in t.split("<")[0]


def is_atomic(t):
    return base_type(t).startswith(("std::atomic", "atomic", "struct std::atomic", "std::__atomic"))


def method_of(n):
    """(class name, method name) of a call, from the qualified name"""
    q = strip_targs(n.d.get("fq", ""))
    p = q.split("::")
    return (p[-2] if len(p) > 1 else "", p[-1])


def is_map(t):
    t = base_type(t)
    return "map<" in t.split("::")[-1] or t.startswith(("std::map", "std::unordered_map", "unordered_map", "map"))


class Rec:
    """one access"""
    __slots__ = ("path", "write", "held", "live", "node", "chain", "q", "known")

    def __init__(self, path, write, held, live, node, chain, q, known=frozenset()):
        self.path, self.write, self.held, self.live, self.node, self.chain, self.q, self.known = path, write, held, live, node, chain, q, known


class Conc(Inter):
    maxdepth = 14
    atomics = False   # also note accesses to atomic members

    def __init__(self, P, fields=None, skip_recs=("ThreadPool",), note_recs=()):
        Inter.__init__(self, P)
        self.skip_recs = set(skip_recs) | {"ThreadPool"} | set(note_recs)
        self.note_recs = set(note_recs)
        self.access = {}      # (path, write, held mutexes, node) -> Rec with union of live
        self.acquire = {}     # (mutex path, held mutexes) -> node
        self.waits = {}
        self.notifies = {}
        self.submits = {}
        self.calls = {}
        self.lockvar = {}
        self.task_of = {}
        self.interesting = fields
        self._mem = {}
        self._flags = None
        self._config = None
        self._down = {}
        self.config_roots = []

    def join(self, a, b):
        return norm(a | b)

    def flags(self):
        """bool members that one function both sets and clears (candidates for test-and-set ownership)"""
        if self._flags is None:
            self._flags = set()
            for f in self.P.fns.values():
                if f.raw.get("body") is None:
                    continue
                m = {}
                for n in f.walk():
                    if n.k == "Assign" and n.op == "=" and strip(n.c[0]).k in ("Member", "Ref") and strip(n.c[1]).k == "Bool":
                        m.setdefault(strip(n.c[0]).d.get("q", ""), []).append((n.l, bool(strip(n.c[1]).cv)))
                for q, v in m.items():
                    t = [x for x, y in v if y]
                    if t and any(not y and x > min(t) for x, y in v):
                        self._flags.add(q)
        return self._flags

    def bind(self, fr, call, g):
        fp = Inter.bind(self, fr, call, g)
        if call.k == "Construct":
            fp.env["this"] = ("?",)
        if not g.lam:
            keep = {p.d for p in g.params if by_ref(p.t)} | {"this"}
            fp.env = {k: v for k, v in fp.env.items() if k in keep}
        return fp

    def leave(self, fr, call, g, before, after):
        if any(x[0] == "known" and x[1][0] == "var" for _, f, _ in after for x in f):
            mine = {x for _, f, _ in before for x in f}
            after = norm([(h, frozenset(x for x in f if x[0] != "known" or x[1][0] != "var" or x in mine), l) for h, f, l in after])
        return self.leave_flags(fr, call, g, before, after)

    def leave_flags(self, fr, call, g, before, after):
        """a flag taken inside a call and not given back there is no ownership"""
        keep = {o for h, _, _ in before for o, _ in h}
        if any(o[0] == "flag" and o not in keep for h, _, _ in after for o, _ in h):
            return norm((frozenset(x for x in h if x[0][0] != "flag" or x[0] in keep), f, l) for h, f, l in after)
        return after

    # ------------------------------------------------------------ relevance
    def is_event(self, n, fn):
        if n.k == "Member" and not n.d.get("meth") and self.keep(n):
            return True
        if n.k == "Ref" and n.d.get("dk") == "global" and self.keep(n):
            return True
        if n.k == "Decl":
            return any(is_guard(v.t) for v in n.vars)
        if n.k == "Call":
            return self.call_kind(n) is not None
        return False

    def keep(self, n):
        q = strip_targs(n.d.get("q", ""))
        r = self._mem.get(q)
        if r is None:
            r = self._mem[q] = bool(self.interesting is None or self.interesting(q, n))
        return r

    def skip(self, g):
        return g.recn in self.skip_recs

    def call_kind(self, n):
        if n.k != "Call":
            return None
        c, m = method_of(n)
        if c == "ThreadPool" and m in SUBMIT:
            return "submit"
        if c == "ThreadPool" and m in ("kill_all", "wait"):
            return m
        if m in ("wait", "wait_for", "wait_until") and "condition_variable" in c:
            return "cvwait"
        if m in ("notify_one", "notify_all") and "condition_variable" in c:
            return "notify"
        if m in ("lock", "unlock", "try_lock") and (c in GUARDS or "mutex" in c):
            return m
        if m == "lock" and c == "std":
            return "stdlock"
        if m == "join" and c in ("thread", "jthread") or m in ("get", "wait") and c in ("future", "shared_future", "__basic_future"):
            return "join"
        return None

    def wants(self, kind, n, fn):
        if kind == "D":
            return True
        if kind == "V":
            return True
        if kind != "S":
            return False
        if n.k in ("Decl", "Call"):
            return True
        if n.k in ("Member", "Ref", "Sub", "Un", "Assign"):
            return True
        if n.k == "Construct" and self.note_recs:
            g = self.P.callee(n)
            return g is not None and g.recn in self.note_recs
        return False

    # ------------------------------------------------------------ helpers
    def mutexes(self, held):
        return frozenset(m for _, m in held)

    def lam_of(self, fr, n):
        """lambda function a callable expression denotes"""
        n = strip(n)
        for _ in range(6):
            if n is None:
                return None
            if n.k == "Lambda":
                f = self.P.lams.get(n.d["lam"])
                return f[0] if f else None
            if n.k == "Ref":
                x = fr
                v = None
                while x is not None and v is None:
                    v = x.paths.decls.get(n.d["d"])
                    x = x.up
                if v is None or v.init is None:
                    return None
                n = strip(v.init)
                continue
            if n.k in ("Construct", "Cast", "InitList") and n.args():
                n = strip(n.args()[0])
                continue
            return None
        return None

    # ------------------------------------------------------------ transfer
    def event(self, fr, kind, n, st):
        if kind == "D":
            own = ("L", n)
            if any(o[:2] == own for h, _, _ in st for o, _ in h):
                return norm((frozenset(x for x in h if x[0][:2] != own), f, l) for h, f, l in st)
            return st
        if kind == "V":
            v = fr.paths.decls.get(n)
            return self.decl(fr, v, st) if v is not None else st
        if kind in ("exit", "call"):
            if kind == "call":
                self.on_call(fr, n, st)
            return st
        if n.k == "Decl":
            for v in n.vars:
                st = self.decl(fr, v, st)
            return st
        if n.k == "Construct":
            self.on_call(fr, n, st)
            return st
        if n.k == "Call":
            ck = self.call_kind(n)
            if ck:
                return self.sync(fr, ck, n, st)
            self.on_call(fr, n, st)
            st = self.opaque_lambdas(fr, n, st)
        self.visit_access(fr, n, st)
        if n.k in ("Assign", "Un", "Call"):
            st = self.known_store(fr, n, st)
        if n.k == "Assign" and self.handoffs():
            st = self.hand_over(fr, n, st)
        if n.k == "Assign" and n.op == "=" or n.k == "Call" and n.op == "=" and len(n.args()) == 2:
            st = self.flag_store(fr, n, st)
        return st

    def on_call(self, fr, n, st):
        g = self.P.callee(n)
        if g is not None and self.skip(g) and g.recn in self.note_recs:
            o = fr.of(n.obj) if n.k == "Call" and n.obj is not None else ("?",)
            for h, f, l in st:
                self.calls.setdefault(("call", n), []).append((self.mutexes(h), l, fr, g, o))

    def opaque_lambdas(self, fr, n, st):
        """a lambda given to a function outside the repository is run by that call"""
        if self.P.callee(n) is not None or n.obj is not None and method_of(n)[1] in MUT:
            return st
        for a in n.args():
            g = self.lam_of(fr, a) if strip(a) is not None and strip(a).k in ("Lambda",) else None
            if g is not None and self.relevant(g):
                s2 = self.call_fn(fr, n, g, st)
                st = st if s2 is None else norm(st | s2)
        return st

    def decl(self, fr, v, st):
        if base_type(v.t) in ("bool", "_Bool"):
            return self.known_var(fr, v.d, strip(v.init) if v.init is not None else None, st)
        if not is_guard(v.t) or v.init is None:
            return st
        c = strip(v.init)
        if c is None or c.k not in ("Construct", "Call", "InitList"):
            return st
        args = [a for a in c.args()]
        own = ("L", v.d, v.n)
        if v.t.rstrip().endswith("&"):
            return st
        muts, defer, adopt = [], False, False
        for a in args:
            t = strip(a).t if strip(a) is not None else ""
            tt = a.t + " " + t
            if "defer_lock" in tt or "try_to_lock" in tt:
                defer = True
            elif "adopt_lock" in tt:
                adopt = True
            elif is_mutex(t) or is_mutex(a.t):
                muts.append(fr.of(a))
        for m in muts:
            self.lockvar.setdefault(own, set()).add(m)
        if defer:
            return st
        out = set()
        for h, f, l in st:
            base = h
            for m in muts:
                if not adopt:
                    self.acq(fr, m, base, c, len(muts) > 1)
                h = h | {(own, m)}
            out.add((h, f, l))
        return norm(out)

    def acq(self, fr, m, h, node, joint=False):
        k = (m, self.mutexes(h) if not joint else self.mutexes(h))
        self.acquire.setdefault(k, (node, fr.chain()))

    def sync(self, fr, ck, n, st):
        args = n.args()
        if ck == "stdlock":
            out = set()
            for h, f, l in st:
                base = h
                for a in args:
                    own = fr.of(a)
                    ms = self.lockvar.get(own, {own} if is_mutex(strip(a).t) else set())
                    for m in ms:
                        self.acq(fr, m, base, n, True)
                        h = h | {(own, m)}
                out.add((h, f, l))
            return norm(out)
        if ck in ("lock", "unlock", "try_lock"):
            own = fr.of(n.obj)
            mx = is_mutex(strip(n.obj).t) if strip(n.obj) is not None else False
            ms = {own} if mx else self.lockvar.get(own, set())
            out = set()
            for h, f, l in st:
                if ck == "unlock":
                    out.add((frozenset(x for x in h if x[0] != own and not (mx and x[1] == own)), lasting(f), l))
                elif ck == "lock":
                    for m in ms:
                        self.acq(fr, m, h, n)
                        h = h | {(own, m)}
                    out.add((h, f, l))
                else:
                    out.add((h, f, l))
            return norm(out)
        if ck == "cvwait":
            cv = fr.of(n.obj)
            own = fr.of(args[0])
            pred = self.lam_of(fr, args[-1]) if len(args) > 1 else None
            for h, f, l in st:
                ms = frozenset(m for o, m in h if o == own)
                self.waits.setdefault((cv, n), []).append((ms, self.mutexes(frozenset(x for x in h if x[0] != own)), fr, pred, h))
            if pred is not None and self.relevant(pred):
                self.call_fn(fr, n, pred, st)
            st = norm([(h, lasting(f), l) for h, f, l in st])
            return self.after_wait(fr, n, cv, pred, st)
        if ck == "notify":
            cv = fr.of(n.obj)
            for h, f, l in st:
                self.notifies.setdefault((cv, n), set()).add(self.mutexes(h))
            return st
        if ck == "submit":
            pool = fr.of(n.obj)
            g = None
            for a in args:
                g = g or self.lam_of(fr, a)
            for h, f, l in st:
                self.submits.setdefault((n, g.u if g else None), (pool, fr, set()))[2].add(self.mutexes(h))
            if g is not None:
                env = {}
                x = fr
                owner = fr
                while x is not None:
                    if g.parent_fn is not None and x.fn.u == g.parent_fn.u:
                        owner = x
                        break
                    x = x.up
                self.task_of.setdefault(g.u, {})[tuple(sorted(((k, v) for k, v in owner.paths.env.items()), key=repr))] = owner.paths
            return self.submitted(fr, pool, g, st)
        if ck == "kill_all":
            pool = fr.of(n.obj)
            self.record_call("kill_all", fr, n, st)
            return frozenset((h, f, frozenset(x for x in l if x[0] != pool)) for h, f, l in st)
        if ck in ("wait", "join"):
            self.record_call("pool_wait" if ck == "wait" else ck, fr, n, st)
            return st
        return st

    TOKEN = (("token",), ("token",))

    def handoffs(self):
        """plain bool members that are only waited for (never tested elsewhere): they pass the turn between two threads"""
        if getattr(self, "_ho", None) is None:
            w, tested = set(), set()
            preds = set()
            for f in self.P.fns.values():
                if f.raw.get("body") is None:
                    continue
                for n in f.walk():
                    if n.k == "Call" and self.call_kind(n) == "cvwait" and len(n.args()) > 1:
                        for x in n.args()[-1].walk():
                            if x.k == "Lambda":
                                preds |= {g.u for g in self.P.lams.get(x.d["lam"], [])}
            for f in self.P.fns.values():
                if f.raw.get("body") is None:
                    continue
                if f.u in preds:
                    r = [n for n in f.walk() if n.k == "Return" and n.c]
                    m = strip(r[0].c[0]) if len(r) == 1 else None
                    if m is not None and m.k == "Member" and not is_atomic(m.t):
                        w.add(strip_targs(m.d.get("q", "")))
                        continue
                for n in f.walk():
                    if n.k == "Member" and base_type(n.t) == "bool" and "R" in self.usage(n):
                        tested.add(strip_targs(n.d.get("q", "")))
            self._ho = w - tested
            self._waited = {}
        return self._ho

    def waited_here(self, fn_u):
        """flags the function a thread runs waits for itself (not the tasks it starts)"""
        if fn_u not in self._waited:
            out, seen, st = set(), set(), [self.P.fns.get(fn_u)]
            while st:
                f = st.pop()
                if f is None or f.u in seen:
                    continue
                seen.add(f.u)
                sub = set()
                for n in f.walk():
                    if n.k == "Call":
                        ck = self.call_kind(n)
                        if ck == "cvwait" and len(n.args()) > 1:
                            for x in n.args()[-1].walk():
                                if x.k == "Lambda":
                                    for g in self.P.lams.get(x.d["lam"], []):
                                        out |= {strip_targs(y.d.get("q", "")) for y in g.walk() if y.k == "Member"}
                        elif ck != "submit":
                            g = self.P.callee(n)
                            if g is not None and not self.skip(g):
                                st.append(g)
            self._waited[fn_u] = out
        return self._waited[fn_u]

    def root_fn(self, fr):
        while fr.up is not None:
            fr = fr.up
        return fr.fn

    def hand_over(self, fr, n, st):
        l, r = strip(n.c[0]), strip(n.c[1])
        if n.op != "=" or l is None or l.k != "Member" or r is None or not r.cv or strip_targs(l.d.get("q", "")) not in self.handoffs():
            return st
        if strip_targs(l.d["q"]) in self.waited_here(self.root_fn(fr).u):
            return st
        return norm([(h - {self.TOKEN}, f, lv) for h, f, lv in st])

    def take_over(self, pred, st):
        if pred is not None and self.handoffs():
            r = [n for n in pred.walk() if n.k == "Return" and n.c]
            m = strip(r[0].c[0]) if len(r) == 1 else None
            if m is not None and m.k == "Member" and strip_targs(m.d.get("q", "")) in self.handoffs():
                return norm([(h | {self.TOKEN}, f, lv) for h, f, lv in st])
        return st

    def after_wait(self, fr, n, cv, pred, st):
        st = self.take_over(pred, st)
        return self.drop_counted(pred, st) if pred is not None else st

    def submitted(self, fr, pool, g, st):
        u = g.u if g else "?"
        return norm((h, f, l | {(pool, u, frozenset(x for x in f if x[0] == "cfg"))}) for h, f, l in st)

    def config(self):
        """bool members of the analysed class that no code running with the threads changes"""
        if self._config is None:
            w, decl = set(), set()
            roots = [f for f in self.config_roots]
            seen, st = set(), list(roots)
            while st:
                f = st.pop()
                if f.u in seen:
                    continue
                seen.add(f.u)
                for n in f.walk():
                    if n.k in ("Call", "Construct"):
                        g = self.P.callee(n)
                        if g is not None:
                            st.append(g)
                    if n.k == "Lambda":
                        st += self.P.lams.get(n.d["lam"], [])
                    if n.k == "Member" and "bool" in n.t:
                        q = n.d.get("q", "")
                        decl.add(q)
                        if "W" in self.usage(n):
                            w.add(q)
            self._config = decl - w
        return self._config

    def drop_counted(self, pred, st):
        """waiting until counters are zero: tasks that give such a counter back as their last act are over"""
        cs = self.zero_tests(pred)
        if not cs:
            return st
        dead = {u for u in self.task_of if self.counts_down(u) & cs}
        return norm((h, f, frozenset(x for x in l if x[1] not in dead)) for h, f, l in st)

    def zero_tests(self, g):
        """counters a predicate requires to be zero (conjunction)"""
        rets = [n for n in g.walk() if n.k == "Return" and n.c]
        if len(rets) != 1:
            return set()
        out = set()

        def conj(n):
            n = strip(n)
            if n is None:
                return
            if n.k == "Bin" and n.op == "&&":
                conj(n.c[0])
                conj(n.c[1])
            elif n.k == "Bin" and n.op in ("==", "<=") and strip(n.c[1]).cv == 0 and strip(n.c[0]).k == "Member":
                out.add(strip(n.c[0]).d.get("q"))
            elif n.k == "Un" and n.op == "!" and strip(n.c[0]).k == "Member":
                out.add(strip(n.c[0]).d.get("q"))
        conj(rets[0].c[0])
        return out

    def counts_down(self, u):
        """counters a task takes down"""
        r = self._down.get(u)
        if r is None:
            r = set()
            seen, st = set(), [self.P.fns.get(u)]
            while st:
                f = st.pop()
                if f is None or f.u in seen:
                    continue
                seen.add(f.u)
                for n in f.walk():
                    if n.k == "Call":
                        g = self.P.callee(n)
                        if g is not None and self.call_kind(n) is None and not self.skip(g):
                            st.append(g)
                    if n.k == "Un" and n.op == "--" and strip(n.c[0]).k == "Member":
                        r.add(strip(n.c[0]).d.get("q"))
                    if n.k == "Assign" and n.op == "-=" and strip(n.c[0]).k == "Member":
                        r.add(strip(n.c[0]).d.get("q"))
            self._down[u] = r
        return r

    def record_call(self, what, fr, n, st):
        for h, f, l in st:
            self.calls.setdefault((what, n), []).append((self.mutexes(h), l, fr))

    def edge(self, fr, B, i, st):
        c = fr.fn.cfg.test(B)
        if B.tk == "SwitchStmt" and c is not None and i == len(B.s) - 1 and self.P.callee(strip(c)) is not None:
            # dispatch over what a library function returns: C22 decides that there is a case for every value
            t = fr.fn.cfg.blocks[B.s[i]]
            lb = fr.fn.nodes.get(t.lb) if t.lb is not None else None
            if lb is None or lb.k != "Default" and lb.k != "Case":
                return None
        if c is None or len(B.s) != 2 or B.tk == "SwitchStmt":
            return st
        leaf, neg = leaf_cond(c)
        if leaf is None:
            return st
        val = (i == 0) != neg
        if leaf.k == "Call" and self.call_kind(leaf) == "wait" and not val:
            pool = fr.of(leaf.obj)
            return frozenset((h, f, frozenset(x for x in l if x[0] != pool)) for h, f, l in st)
        leaf2 = leaf
        if leaf.k == "Member" and leaf.d.get("q") in self.config():
            yes, no = ("cfg", leaf.d["q"], val), ("cfg", leaf.d["q"], not val)
            return norm([(h, (f - {no}) | {yes}, frozenset(x for x in l if no not in x[2])) for h, f, l in st if no not in f]) or None
        k = self.known_leaf(fr, leaf)
        if k is not None:
            p, pol = k
            v = val == pol
            st = norm([(h, f | {("known", p, v)}, l) for h, f, l in st if ("known", p, not v) not in f])
            if not st:
                return None
        if leaf.k == "Call" and leaf.obj is not None and leaf.name in ("load", "operator bool"):
            leaf2 = strip(leaf.obj)
        if leaf2.k == "Member" and not val and leaf2.d.get("q") in self.flags():
            p = fr.of(leaf2)
            if p[0] != "?":
                return frozenset((h, f | {p}, l) if h else (h, f, l) for h, f, l in st)
        return st

    def known_leaf(self, fr, leaf):
        """(member, polarity): a bool member itself, or whether an integer member is not zero; only
        members no other thread changes"""
        m, pol = leaf, True
        if m.k == "Bin" and m.op in ("==", "!=", ">") and strip(m.c[1]) is not None and strip(m.c[1]).cv == 0:
            pol = m.op != "=="
            m = strip(m.c[0])
        if m is not None and m.k == "Call" and m.obj is not None and (m.name in ("load",) or m.name.startswith("operator ")):
            m = strip(m.obj)
        if m is not None and m.k == "Ref" and m.d.get("dk") == "local" and base_type(m.t) in ("bool", "_Bool"):
            v = fr.paths.decls.get(m.d["d"])
            return (("var", m.d["d"]), pol) if v is not None and not v.t.rstrip().endswith("&") and self.only_assigned(fr.fn, m.d["d"]) else None
        if m is None or m.k != "Member" or m.d.get("meth") or strip_targs(m.d.get("q", "")) in self.task_written():
            return None
        p = fr.of(m)
        return (p, pol) if p and p[0] == "this" else None

    def task_written(self):
        """members some submitted task changes"""
        if getattr(self, "_tw", None) is None:
            self._tw = set()
            st = []
            for f in self.P.fns.values():
                if f.raw.get("body") is None:
                    continue
                for n in f.walk():
                    if n.k == "Call" and self.call_kind(n) == "submit":
                        for x in n.walk():
                            if x.k == "Lambda":
                                st += self.P.lams.get(x.d["lam"], [])
                            if x.k == "Ref" and "lambda" in x.t:
                                st += [g for gs in self.P.lams.values() for g in gs if g.parent_fn is not None and g.parent_fn.u == f.u]
            seen = set()
            while st:
                f = st.pop()
                if f.u in seen:
                    continue
                seen.add(f.u)
                for n in f.walk():
                    if n.k in ("Call", "Construct"):
                        g = self.P.callee(n)
                        if g is not None:
                            st.append(g)
                    if n.k == "Lambda":
                        st += self.P.lams.get(n.d["lam"], [])
                    if n.k == "Member" and not n.d.get("meth") and "W" in self.usage(n):
                        self._tw.add(strip_targs(n.d.get("q", "")))
        return self._tw

    def only_assigned(self, fn, d):
        """a local that is never handed out by reference nor captured"""
        k = (fn.u, d, "oa")
        if k not in self._mem:
            r = True
            for n in fn.walk():
                if n.k == "Lambda" and any(x.k == "Ref" and x.d.get("d") == d for g in self.P.lams.get(n.d["lam"], []) for x in g.walk()):
                    r = False
                if n.k == "Ref" and n.d.get("d") == d and n.p is not None:
                    p = n.p
                    if p.k == "Un" and p.op == "&" or p.k == "Call" and n in p.args():
                        r = False
            self._mem[k] = r
        return self._mem[k]

    def known_store(self, fr, n, st):
        """what is known about a member after it was changed"""
        l = None
        if n.k == "Assign":
            l, r, op = strip(n.c[0]), strip(n.c[1]), n.op
        elif n.k == "Un" and n.op in ("++", "--"):
            l, r, op = strip(n.c[0]), None, n.op
        elif n.k == "Call" and n.op and n.args() and (n.op in ("++", "--") or n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">=")):
            l, r, op = strip(n.args()[0]), strip(n.args()[1]) if len(n.args()) > 1 else None, n.op
        if l is not None and l.k == "Ref" and l.d.get("dk") == "local" and base_type(l.t) in ("bool", "_Bool"):
            return self.known_var(fr, l.d["d"], r if op == "=" else None, st)
        if l is None or l.k != "Member" or l.d.get("meth"):
            return st
        if not any(x[0] == "known" for _, f, _ in st for x in f) and not (op == "=" and r is not None and r.cv is not None):
            return st
        if strip_targs(l.d.get("q", "")) in self.task_written():
            return st
        p = fr.of(l)
        if not p or p[0] != "this":
            return st
        new = frozenset([("known", p, bool(r.cv))]) if op == "=" and r is not None and r.cv is not None else frozenset()
        return norm([(h, frozenset(x for x in f if x[0] != "known" or x[1] != p) | new, lv) for h, f, lv in st])

    def known_var(self, fr, d, r, st):
        p = ("var", d)
        new = frozenset([("known", p, bool(r.cv))]) if r is not None and r.cv is not None and self.only_assigned(fr.fn, d) else frozenset()
        return norm([(h, frozenset(x for x in f if x[0] != "known" or x[1] != p) | new, lv) for h, f, lv in st])

    def flag_store(self, fr, n, st):
        l, r = n.args()[0], strip(n.args()[1])
        l = strip(l)
        if l is None or r is None or l.k not in ("Member", "Ref") or r.k != "Bool":
            return st
        p = fr.of(l)
        out = set()
        for h, f, lv in st:
            if r.cv:
                if p in f:
                    h = h | {(("flag",) + p, ("flag",) + p)}
                f = f - {p}
            else:
                h = frozenset(x for x in h if x[0] != ("flag",) + p)
            out.add((h, f, lv))
        return norm(out)

    # ------------------------------------------------------------ accesses
    EXT = ("Member", "Sub")

    def extends(self, n):
        """does the parent node denote a part of / the same object as n"""
        p = n.p
        while p is not None and (p.k == "Cast" or (p.k == "Construct" and False)):
            n, p = p, p.p
        if p is None:
            return None, n
        if p.k == "Member" and p.c and p.c[0] is n and not p.d.get("meth"):
            return p, n
        if p.k == "Sub" and p.c[0] is n:
            return p, n
        if p.k == "Un" and p.op in ("*",):
            return p, n
        if p.k == "Call":
            a = p.args()
            if p.op in ("[]", "*", "->") and a and a[0] is n:
                return p, n
            if p.d.get("fq", "").startswith("std::get") and a and a[0] is n:
                return p, n
            c, m = method_of(p)
            if p.d.get("obj") is not None and p.obj is n and m in CONTAINER_ELEM | {"top"}:
                return p, n
        return None, n

    def usage(self, n):
        """'R', 'W' or 'S' (skip) for the complete access expression n"""
        p = n.p
        moved = False
        while p is not None and (p.k == "Cast" or (p.k == "Call" and p.d.get("fq", "").startswith("std::") and p.name in ("move", "forward", "ref"))):
            if p.k == "Call" and p.name in ("move", "ref"):
                moved = True
            n, p = p, p.p
        if p is None:
            return "W" if moved else "R"
        if moved:
            return "W"
        if p.k == "Assign" and p.c[0] is n:
            return "W" if p.op == "=" else "RW"
        if p.k == "Un" and p.op in ("++", "--"):
            return "RW"
        if p.k == "Un" and p.op == "&":
            if p.p is not None and p.p.k in ("Call", "Cast"):
                c = p.p if p.p.k == "Call" else p.p.p
                if c is not None and c.k == "Call" and c.name in ("MPI_Bcast", "MPI_Send", "MPI_Isend", "MPI_Reduce"):
                    return "R"
            return "W"
        if p.k == "Call":
            a = p.args()
            if p.d.get("obj") is not None and p.obj is n:
                c, m = method_of(p)
                if self.P.callee(p) is not None:
                    return "S"  # entered
                if p.d.get("const") or p.d.get("static"):
                    return "R"
                if m in MUT:
                    return "W"
                if m in CONTAINER_ITER or m in CONTAINER_ELEM or m in ("size", "empty", "load", "str", "c_str", "good", "is_open", "get"):
                    return "R"
                return "W" if not m.startswith("operator") else "R"
            if p.op and a and a[0] is n:
                if p.op in ("=",):
                    return "W" if self.P.callee(p) is None else "W"
                if p.op in ("++", "--") or (p.op.endswith("=") and p.op not in ("==", "!=", "<=", ">=")):
                    return "RW"
                return "R"
            if n in a:
                i = a.index(n)
                pt = p.pt
                off = 1 if (p.op and p.d.get("obj") is None and len(pt) == len(a) - 1) else 0
                if 0 <= i - off < len(pt):
                    t = pt[i - off]
                    g = self.P.callee(p)
                    if t.endswith("&") and not t.startswith("const ") and not t.endswith("&&") and g is None:
                        if p.d.get("fq", "").startswith("std::") and p.name in ("make_tuple", "make_pair", "forward", "addressof", "begin", "end", "size", "make_optional", "max", "min"):
                            return "R"
                        if p.name == "MPI_Bcast":
                            return "R"
                        return "W"
                    if g is not None and t.endswith("&"):
                        return "S" if t.endswith("&") else "R"
                return "R"
        if p.k == "Construct":
            a = p.args()
            if n in a:
                i = a.index(n)
                pt = p.pt
                if i < len(pt) and pt[i].endswith("&") and not pt[i].startswith("const ") and not pt[i].endswith("&&"):
                    return "W"
            return "R"
        return "R"

    def visit_access(self, fr, n, st):
        if n.k not in ("Member", "Ref"):
            return
        if n.k == "Member" and n.d.get("meth"):
            return
        if n.k == "Ref" and n.d.get("dk") not in ("global", "local", "param"):
            return
        if is_mutex(n.t) or is_cv(n.t) or is_atomic(n.t) and not self.atomics:
            return
        if n.k == "Ref" and n.d.get("dk") in ("local", "param"):
            p = fr.of(n)
            if p[0] in ("L", "?", "C"):
                return
            v = fr.paths.decls.get(n.d["d"])
            if v is not None and not v.t.rstrip().endswith("&") and self.extends(n)[0] is None:
                return  # the iterator or pointer itself, not what it denotes
            # declared alias itself: only its uses count
        # walk outwards to the complete access expression
        cur = n
        while True:
            nxt, inner = self.extends(cur)
            if nxt is None:
                break
            # a subscript on a map may insert
            if nxt.k == "Call" and nxt.op == "[]" and not nxt.d.get("const") and is_map(strip(inner).t if strip(inner) is not None else "") and not self.looked_up(nxt, strip(inner)):
                self.rec(fr, strip(inner), True, st)
            else:
                self.rec_inner(fr, inner, st)
            cur = nxt
        if is_atomic(cur.t) and not self.atomics:
            return
        u = self.usage(cur)
        if u == "S":
            # handed by reference to a function that is analysed: reading it there counts there
            return
        self.rec(fr, cur, "W" in u, st, "R" in u)

    def looked_up(self, call, m):
        """m[k] below a test of m.find(k) / m.count(k): the key exists"""
        key = strip(call.args()[1]) if len(call.args()) > 1 else None
        if key is None:
            return False
        want = (txt(m), txt(key))
        x = call
        for a in call.ancestors():
            if a.k in ("If", "Cond", "While", "For") and a.c and a.c[0] is not x:
                for cond in a.c[:-1]:
                    if cond is None or cond is x:
                        continue
                    for n in cond.walk():
                        if n.k == "Call" and n.obj is not None and n.name in ("find", "count", "contains") and n.args() and (txt(strip(n.obj)), txt(strip(n.args()[0]))) == want:
                            return True
            x = a
        return False

    def rec_inner(self, fr, inner, st):
        # intermediate step through a container: its structure is read
        s = strip(inner)
        if s is not None and s.k in ("Member", "Ref") and any(x in s.t for x in ("vector", "map", "deque", "list", "queue", "set<", "string", "basic_string")):
            self.rec(fr, s, False, st)

    def rec(self, fr, n, write, st, read=True):
        p = fr.of(n)
        if p[0] in ("?", "C", "L"):
            return
        q = ""
        x = strip(n)
        while x is not None and x.k not in ("Member", "Ref"):
            a = x.args()
            x = strip(x.c[0]) if x.k in ("Sub", "Un") and x.c else (strip(x.obj) if x.k == "Call" and x.obj is not None else (strip(a[0]) if x.k == "Call" and a else None))
        if x is not None:
            q = strip_targs(x.d.get("q", ""))
        if not self.want_path(p, q):
            return
        for h, f, l in st:
            ms = self.mutexes(h)
            k = (p, write, ms, n)
            r = self.access.get(k)
            kn = frozenset(x[1:] for x in f if x[0] == "known")
            if r is None:
                self.access[k] = Rec(p, write, ms, l, n, fr.chain(), q, kn)
            else:
                if not l <= r.live:
                    r.live = r.live | l
                r.known = r.known & kn

    def want_path(self, p, q):
        return True


INIT = frozenset([(frozenset(), frozenset(), frozenset())])


class Threads:
    """runs a Conc model over the driver, every task it can start (transitively) and the calls a user may make meanwhile"""

    def __init__(self, C, driver, users=(), start=INIT):
        self.C = C
        self.by_root = {}
        self.sub_of = {}
        self.users = [f for f in users]
        self._run(("driver",), lambda: [C.run(f, start) for f in driver])
        done = set()
        while True:
            todo = [u for u in C.task_of if u not in done]
            if not todo:
                break
            for u in todo:
                done.add(u)
                self._run(("task", u), lambda: self.run_task(u))
        for f in self.users:
            self._run(("user", f.u), lambda: C.run(f, INIT))
        # closure of what may be running once a task is
        self.reach = {}
        for u in done:
            seen, st = {u}, [u]
            while st:
                x = st.pop()
                for _, y in self.sub_of.get(("task", x), ()):
                    if y not in seen:
                        seen.add(y)
                        st.append(y)
            self.reach[u] = seen

    def run_task(self, u):
        g = self.C.P.fns.get(u)
        if g is None:
            return
        paths = list(self.C.task_of[u].values())[0]
        fr = Frame(g, FPaths(g, {k: v for k, v in paths.env.items() if k == "this" or v[0] != "L"}, paths))
        self.C.run_frame(fr, INIT)

    def _run(self, root, fn):
        C = self.C
        saved = (C.access, C.submits, C.calls, C.waits, C.notifies, C.acquire)
        C.access, C.submits, C.calls, C.waits, C.notifies, C.acquire = {}, {}, {}, {}, {}, {}
        C.memo = {}
        fn()
        self.by_root[root] = dict(access=C.access, submits=C.submits, calls=C.calls, waits=C.waits, notifies=C.notifies, acquire=C.acquire)
        self.sub_of[root] = {(v[0], u) for (n, u), v in C.submits.items()}
        C.access, C.submits, C.calls, C.waits, C.notifies, C.acquire = saved

    def name(self, root):
        if root[0] == "driver":
            return "driver"
        f = self.C.P.fns.get(root[1])
        if root[0] == "user":
            return f.q.split("::")[-1] if f else "?"
        cs = [n.name or txt(n)[:30] for n in f.walk() if n.k == "Call" and self.C.P.callee(n) is not None] if f else []
        return "task " + (cs[0] if cs else f.loc() if f else "?")

    def live_tasks(self, live):
        out = set()
        for _, u, _g in live:
            out |= self.reach.get(u, {u})
        return out


def conflict(a, b):
    """may the two accesses touch the same memory, at least one changing it"""
    if not (a.write or b.write):
        return False
    p, q = a.path, b.path
    if p == q:
        return True
    if len(p) < len(q) and q[:len(p)] == p:
        return a.write
    if len(q) < len(p) and p[:len(q)] == q:
        return b.write
    return False
