"""C10: outstanding-work counters are balanced on every path."""
import re
from ..core import *
from ..core import strip
from ..inter import *
from ..inter import leaf_cond
from ..conc import method_of
from ..affine import *
from ..affine import ONE

TECHNIQUE = "interprocedural affine-equality analysis (Karr's domain) relating the work counters to ghost counts of submissions, queue entries and index entries on every path"
NOTE = ("Each relation (counter = pending tasks, queued = indexed - fed, started = indexed, evaluation jobs = queued probes) is assumed where a job or the driver starts and proved where it ends or "
        "waits; jobs of other threads keep it by the same argument. That the final wake-up is not lost is C09.")

CLS = "Reconstructor"
PRIMARY = "StubBlackBox"
SUBMIT = ("run_task", "run_priority_task", "run_packaged_task")
INT = re.compile(r"^(?:const )?(?:std::)?(?:atomic<)?(?:u?int\d+_t|unsigned (?:int|long|char|short)|int|long|bool|size_t|unsigned long long|long long|short|char)>?(?: &)?$")


def integral(t):
    t = unconst(t).replace("&", "").replace("volatile", "").strip()
    return bool(INT.match(t)) or t.startswith("std::atomic<") and bool(INT.match(t[len("std::atomic<"):-1]))


def G(name):
    return ("ghost", name)


class Roles:
    """members of the driver by what they hold"""

    def __init__(self, P):
        r = [x for x in P.rec(CLS) if PRIMARY in x.q or PRIMARY in x.tn] or P.rec(CLS)
        r = r[0]
        self.by = {}
        for f in r.fields:
            t, n = f["t"], f["n"]
            if "deque<" in t and "FFInt" in t:
                self.by["requested"] = n
            elif "queue<" in t and "FFInt" in t and "deque" not in t.split("<")[0]:
                self.by["computed"] = n
            elif "unordered_map<unsigned long, std::pair<firefly::FFInt" in t or "unordered_map<uint64_t, std::pair<FFInt" in t:
                self.by["index"] = n
            elif re.match(r"std::unordered_map<std::vector<(unsigned int|uint32_t)>, (unsigned int|uint32_t)", t):
                self.by["started"] = n
            elif "ThreadPool" in t:
                self.by.setdefault("pools", set()).add(n)
            elif t.endswith("RatReconst_tuple>") or "tuple<" in t and "RatReconst" in t:
                self.by["table"] = n
        self.ints = {f["n"]: f["t"] for f in r.fields if integral(f["t"])}
        # the counter of fetched probes goes down by the number of points taken from the results
        self.rec = r


class Work(Inter):
    def __init__(self, P, roles, assume):
        Inter.__init__(self, P)
        self.r = roles
        self.assume = assume        # member -> 0/1
        self.kinds = {}             # lambda usr -> kind
        self.tasks = {}             # kind -> lambda functions
        self.points = []            # (where, fr, n, state)
        self.vague = set()
        self.counts = {}
        self.iters = {}
        self.fields = {self.r.by[k]: k for k in ("requested", "computed", "index", "started") if k in self.r.by}
        self.stepping = {}
        self.refp = {}

    # ------------------------------------------------------------ what matters
    def field(self, n):
        """role of a member expression of the driver"""
        if n is not None and n.k == "Member" and "Reconstructor" in n.d.get("q", ""):
            return n.name
        return None

    def is_event(self, n, fn):
        if n.k == "Member" and "Reconstructor" in n.d.get("q", "") and (n.name in self.fields or n.name in self.watched):
            return True
        if n.k == "Ref" and fn.recn == CLS and n.d.get("d") in self.refs(fn):
            return True
        if n.k == "Call" and method_of(n)[0] == "ThreadPool" and n.name in SUBMIT + ("kill_all",):
            return True
        return False

    watched = ()

    def refs(self, fn):
        """parameters through which a function changes its caller's counters or queues"""
        if fn.u not in self.refp:
            self.refp[fn.u] = {p.d for p in fn.params if p.t.endswith("&") and not p.t.startswith("const") and (integral(p.t) or "queue<" in p.t or "map<" in p.t)}
        return self.refp[fn.u]

    def skip(self, g):
        return g.recn == "ThreadPool" or (g.recn not in (CLS, "") and not g.lam)

    def wants(self, kind, n, fn):
        if kind == "V":
            return True
        if kind != "S":
            return False
        if n.k in ("Decl", "Assign", "Return"):
            return True
        if n.k == "Un" and n.op in ("++", "--"):
            return True
        return n.k == "Call"

    def join(self, a, b):
        return a.join(b)

    # ------------------------------------------------------------ expressions
    def place(self, fr, n):
        """variable of an lvalue, or None"""
        n = strip(n)
        if n is None:
            return None
        if n.k == "Call" and n.obj is not None and n.name in ("load", "operator unsigned int", "operator bool") and not n.args():
            n = strip(n.obj)
        if n.k == "Ref":
            if n.d.get("dk") in ("enum", "func"):
                return None
            if n.name.startswith(("__begin", "__end")):
                return ("L", n.d["d"], n.name)
        if n.k not in ("Ref", "Member", "Call", "Sub", "Un"):
            return None
        p = fr.of(n)
        if p[0] in ("?", "C"):
            return None
        return p

    def lin(self, fr, n, depth=0):
        n = strip(n)
        if n is None or depth > 12:
            return None
        if n.cv is not None:
            return num(n.cv)
        k = n.k
        if k in ("Cast", "InitList", "Construct") and len(n.args()) == 1:
            return self.lin(fr, n.args()[0], depth + 1)
        if k == "Bin" and n.op in ("+", "-", "*"):
            a, b = self.lin(fr, n.c[0], depth + 1), self.lin(fr, n.c[1], depth + 1)
            if a is None or b is None:
                return None
            if n.op == "+":
                return a + b
            if n.op == "-":
                return a - b
            if a.const is not None:
                return b.scale(a.const)
            if b.const is not None:
                return a.scale(b.const)
            # a product of two unknowns is a quantity of its own
            return None
        if k == "Un" and n.op in ("++", "--"):
            p = self.place(fr, n.c[0])
            if p is None:
                return None
            v = var(p)
            if n.d.get("post"):
                v = v - num(1) if n.op == "++" else v + num(1)
            return v
        if k == "Un" and n.op in ("+", "*"):
            return self.lin(fr, n.c[0], depth + 1)
        if k == "Un" and n.op == "-":
            a = self.lin(fr, n.c[0], depth + 1)
            return None if a is None else a.scale(-1)
        if k == "Assign":
            p = self.place(fr, n.c[0])
            return var(p) if p is not None else None
        if k == "Call":
            if n.obj is not None and n.name in ("size",) and not n.args():
                p = self.place(fr, n.obj)
                return var(p + ("#",)) if p is not None else None
            if n.op in ("++", "--") and n.args():
                p = self.place(fr, n.args()[0])
                return var(p) if p is not None else None
            if n.op == "[]" or n.name == "at":
                p = self.place(fr, n)
                return var(p) if p is not None else None
            if n.obj is not None and n.name == "load":
                return self.lin(fr, n.obj, depth + 1)
            if n.d.get("fq", "").startswith("std::get"):
                p = self.place(fr, n)
                return var(p) if p is not None else None
            g = self.P.callee(n)
            if g is not None and integral(g.ret):
                return var(("R", n.fn.u, n.id))
            if n.name == "get" or "operator" in (n.name or "") and n.obj is not None:
                return self.lin(fr, n.obj, depth + 1) if n.obj is not None and integral(n.obj.t) else None
            return None
        if k in ("Ref", "Member", "Sub"):
            p = self.place(fr, n)
            return var(p) if p is not None else None
        return None

    # ------------------------------------------------------------ transfer
    def set(self, st, p, e, n):
        if e is None and (p[0] == "ghost" or p[0] == "this" and p[1] in self.watched):
            self.vague.add((p, n.loc()))
        return st.assign(p, e)

    def add(self, st, p, e, n):
        return self.set(st, p, None if e is None else var(p) + e, n)

    def enter(self, fr, call, g, st):
        args = call.args()
        if call.op == "()" and args and (g.lam or len(args) == len(g.params) + 1):
            args = args[1:]
        for pv, a in zip(g.params, args):
            if integral(pv.t) and "&" not in pv.t:
                st = st.assign(("L", pv.d, pv.n), self.lin(fr, a))
            elif "vector<" in pv.t and "&" not in pv.t:
                p = self.place(fr, a)
                st = st.assign(("L", pv.d, pv.n, "#"), var(p + ("#",)) if p is not None else None)
        return st.forget([("ret",)])

    def leave(self, fr, call, g, before, after):
        if integral(g.ret):
            after = after.assign(("R", call.fn.u, call.id), var(("ret",)))
        after = after.forget([("ret",)])
        d = {v.d for n in g.walk() for v in n.vars} | {p.d for p in g.params}
        vs = {k for _, r in after.basis for k in r}
        return after.forget([v for v in vs if v[0] == "L" and v[1] in d or v[0] == "R" and v[1] == g.u])

    here = None

    def event(self, fr, kind, n, st):
        self.here = fr
        if kind == "V":
            v = fr.paths.decls.get(n)
            return self.decl(fr, v, st) if v is not None else st
        if kind == "exit":
            return st
        if kind == "call":
            return self.on_call(fr, n, st)
        if n.k == "Decl":
            for v in n.vars:
                st = self.decl(fr, v, st)
            return st
        if n.k == "Return":
            if n.args() and integral(n.args()[0].t):
                return st.assign(("ret",), self.lin(fr, n.args()[0]))
            return st
        if n.k == "Un":
            p = self.place(fr, n.c[0])
            if p is not None and integral(n.c[0].t):
                return self.bump(fr, st, n.c[0], p, num(1 if n.op == "++" else -1), n)
            return st
        if n.k == "Assign":
            return self.assign_to(fr, st, n.c[0], n.op, n.c[1], n)
        if n.k == "Call":
            return self.on_call(fr, n, st)
        return st

    def bump(self, fr, st, target, p, e, n):
        st = self.add(st, p, e, n)
        return self.started_change(fr, st, target, e, n)

    def started_change(self, fr, st, target, e, n):
        p = self.place(fr, target)
        if p is not None and len(p) >= 3 and p[0] == "this" and self.fields.get(p[1]) == "started" and p[2] == "[]":
            return self.add(st, G("started"), e, n)
        return st

    def marks_done(self, fr, st, target, e, n):
        t = strip(target)
        if t is not None and t.k == "Call" and t.d.get("fq", "").startswith("std::get") and targ_index(t) == "1" and t.args() and "RatReconst" in t.args()[0].t:
            d = self.done_value()
            if d is not None and e is not None and e.const == d:
                self.points.append(("work", "mark", self.here, n, st))
                return self.add(st, G("marked"), num(1), n)
        return st

    def busy(self, st):
        for i in self.idles:
            st = st.assign(G("idle:" + i), num(0))
        return st.assign(G("queued!"), num(0))

    def idle_edge(self, fr, leaf, val, st):
        """what a test of a work counter tells the driver"""
        c, zero = zero_test(leaf)
        if c is None:
            return st
        p = fr.of(c)
        if p[0] != "this" or len(p) != 2:
            return st
        z = zero == val
        if p[1] in self.idles:
            if z:
                return st.assign(G("idle:" + p[1]), num(1))
            for i in self.idles:
                st = st.assign(G("idle:" + i), num(0))
            return st
        if p[1] == self.queued:
            if not z:
                return st.assign(G("queued!"), num(1))
            s2 = st.assume(var(G("queued!")))
            return None if s2.empty else s2
        return st

    queued = None

    def done_value(self):
        if not hasattr(self, "_done"):
            self._done = None
            for f in self.P.rec_fns(CLS):
                for n in f.walk():
                    if n.k == "Ref" and n.d.get("dk") == "enum" and n.name == "DONE" and n.cv is not None:
                        self._done = n.cv
        return self._done

    def recon_value(self):
        if not hasattr(self, "_rec"):
            self._rec = None
            for f in self.P.rec_fns(CLS):
                for n in f.walk():
                    if n.k == "Ref" and n.d.get("dk") == "enum" and n.name == "RECONSTRUCTING" and n.cv is not None:
                        self._rec = n.cv
        return self._rec

    def assign_to(self, fr, st, target, op, rhs, n):
        p = self.place(fr, target)
        if p is None:
            return st
        t = strip(target)
        if integral(t.t) or t.k == "Call" and integral(t.t):
            e = self.lin(fr, rhs)
            if op == "=":
                if p[0] == "this" and len(p) == 2 and self.counted(p[1]):
                    self.resets.append((p[1], n))
                if p[0] == "this" and len(p) >= 3 and self.fields.get(p[1]) == "started":
                    st = self.add(st, G("started"), None if e is None else e - var(p), n)
                st = self.marks_done(fr, st, target, e, n)
                if p == ("this", self.done_counter):
                    # a recount of the table
                    st = self.set(st, p, e if e is not None else var(G("recount")), n)
                    return st.assign(G("marked"), var(p))
                return self.set(st, p, e, n)
            if op in ("+=", "-="):
                if e is not None and op == "-=":
                    e = e.scale(-1)
                return self.bump(fr, st, target, p, e, n)
            return self.set(st, p, None, n)
        if p[0] == "this" and len(p) == 3 and p[2] == "[]" and self.fields.get(p[1]) == "index" and op == "=":
            return self.inserted(st, n)
        return self.container_assign(fr, st, p, rhs, n)

    def inserted(self, st, n):
        return self.add(self.add(st, G("indexed"), num(1), n), G("since"), num(1), n)

    done_counter = "items_done"
    resets = []

    def counted(self, name):
        return name in self.watched

    def container_assign(self, fr, st, p, rhs, n):
        role = self.fields.get(p[1]) if p[0] == "this" and len(p) == 2 else None
        if role:
            return self.cleared(st, role, n)
        if p[0] == "L":
            return st.assign(p + ("#",), self.size_of(fr, rhs))
        return st

    def size_of(self, fr, rhs):
        """number of elements of a vector expression"""
        r = rhs
        for _ in range(6):
            if r is None:
                return None
            if r.k == "Cast" and r.c:
                r = r.c[0]
                continue
            if r.k == "Construct":
                a = r.args()
                if (r.d.get("copy") or r.d.get("move")) and a:
                    r = a[0]
                    continue
                if not a:
                    return num(0)
                if "vector" in r.t and integral(a[0].t):
                    return self.lin(fr, a[0])
                if "vector" in r.t and a[0].k == "InitList":
                    return num(len(a[0].args()))
                if len(a) == 1:
                    r = a[0]
                    continue
                return None
            if r.k == "InitList":
                return num(len(r.args()))
            if r.k == "Call" and r.name in ("move", "forward") and len(r.args()) == 1:
                r = r.args()[0]
                continue
            p = self.place(fr, r)
            return var(p + ("#",)) if p is not None else None
        return None

    def cleared(self, st, role, n):
        if role == "requested":
            # the entries are gone; jobs that still look for them find nothing
            st = st.assign(G("jobs"), var(G("pushed")))
            return st.assign(G("stale_requests"), num(0))
        if role == "computed":
            return st.assign(G("stale_results"), num(0))
        if role == "index":
            for g in ("indexed", "taken", "erased", "handed"):
                st = st.assign(G(g), num(0))
            return st
        if role == "started":
            # from now on only what is indexed later has to be recorded
            st = st.assign(G("since"), num(0))
            return st.assign(G("started"), num(0))
        return st

    def decl(self, fr, v, st):
        i = v.init
        if v.n.startswith("__begin"):
            return st.assign(("L", v.d, v.n), num(0))
        if v.n.startswith("__end"):
            p = self.place(fr, i) if i is not None else None
            o = strip(i)
            if o is not None and o.k == "Call" and o.name in ("end", "cend"):
                p = self.place(fr, o.obj if o.obj is not None else (o.args() or [None])[0])
            return st.assign(("L", v.d, v.n), var(p + ("#",)) if p is not None else None)
        t = unconst(v.t).strip()
        if integral(t) and "&" not in t:
            return st.assign(("L", v.d, v.n), self.lin(fr, i) if i is not None else None)
        if t.startswith("std::vector<") and "&" not in t:
            return st.assign(("L", v.d, v.n, "#"), self.size_of(fr, i) if i is not None else num(0))
        return st

    def lambda_of(self, fr, n):
        n = strip(n)
        for _ in range(6):
            if n is None:
                return None
            if n.k == "Lambda":
                f = self.P.lams.get(n.d["lam"])
                return f[0] if f else None
            if n.k == "Ref":
                v = fr.paths.decls.get(n.d["d"])
                n = strip(v.init) if v is not None and v.init is not None else None
            elif n.k in ("Construct", "Cast", "InitList") and n.args():
                n = strip(n.args()[0])
            else:
                return None
        return None

    def captured(self, fr, n):
        """number of evaluation indices a task takes along"""
        n = strip(n)
        for _ in range(6):
            if n is None or n.k == "Lambda":
                break
            if n.k == "Ref":
                v = fr.paths.decls.get(n.d["d"])
                n = strip(v.init) if v is not None and v.init is not None else None
            elif n.k in ("Construct", "Cast", "InitList") and n.args():
                n = strip(n.args()[0])
            else:
                return None
        if n is None or n.k != "Lambda":
            return None
        e = None
        for c in n.c:
            if c is not None and re.match(r"^(const )?std::vector<(unsigned long|uint64_t|unsigned long long)>", c.t):
                z = self.size_of(fr, c)
                if z is None:
                    return None
                e = z if e is None else e + z
        return e

    idles = ()

    def kind_of(self, g):
        """what a task does: the members of the driver it calls"""
        if g.u not in self.kinds:
            ks = []
            for n in g.walk():
                if n.k == "Call":
                    h = self.P.callee(n)
                    if h is not None and h.recn == CLS and not h.lam:
                        ks.append(h.n)
            k = "+".join(dict.fromkeys(ks)) or "other"
            self.kinds[g.u] = k
            self.tasks.setdefault(k, {})[g.u] = g
        return self.kinds[g.u]

    def pair_vector(self, n):
        """the vector of indices handed over with a result"""
        n = strip(n)
        for _ in range(4):
            if n is None:
                return None
            if n.k == "Call" and n.name == "make_pair" and n.args():
                return n.args()[0]
            if n.k in ("Construct", "InitList") and n.args():
                if len(n.args()) >= 2:
                    return n.args()[0]
                n = strip(n.args()[0])
                continue
            if n.k == "Cast":
                n = strip(n.c[0])
                continue
            return None
        return None

    def pair_second(self, args):
        if len(args) == 2:
            return args[1]
        n = strip(args[0]) if args else None
        for _ in range(4):
            if n is None:
                return None
            if n.k in ("Call", "Construct", "InitList") and len(n.args()) == 2:
                return n.args()[1]
            if n.k in ("Construct", "Cast", "InitList") and len(n.args()) == 1:
                n = strip(n.args()[0])
                continue
            return None
        return None

    def on_call(self, fr, n, st):
        c, m = method_of(n)
        a = n.args()
        if c == "ThreadPool":
            o = fr.of(n.obj) if n.obj is not None else ("?",)
            if m in SUBMIT:
                g = self.lambda_of(fr, a[0]) if a else None
                k = self.kind_of(g) if g is not None else "other"
                self.points.append(("submit", k, fr, n, st))
                z = self.captured(fr, a[0]) if a else None
                if z is not None:
                    st = self.add(st, G("handed"), z, n)
                st = self.add(st, G("pend:" + k), num(1), n)
                if self.evaluates(k):
                    st = self.add(st, G("jobs"), num(1), n)
                return st
            if m == "kill_all":
                for k in list(self.tasks) + list(self.kindnames):
                    st = st.assign(G("pend:" + k), num(0))
                st = st.assign(G("jobs"), var(G("pushed")))
                st = st.assign(G("stale_requests"), num(1)).assign(G("stale_results"), num(1))
                for i in self.idles:
                    st = st.assign(G("idle:" + i), num(1))
                return st
            if m == "wait":
                self.points.append(("drain", "", fr, n, st))
            return st
        if n.op in ("++", "--") and a and strip(a[0]) is not None:
            t = strip(a[0])
            if t.k == "Ref" and t.name.startswith("__begin"):
                return st.assign(("L", t.d["d"], t.name), var(("L", t.d["d"], t.name)) + num(1))
            if t.k == "Member" and integral(t.t):
                p = self.place(fr, t)
                if p is not None:
                    return self.bump(fr, st, t, p, num(1 if n.op == "++" else -1), n)
            return st
        if n.obj is not None and integral(n.obj.t) and n.op in ("++", "--"):
            p = self.place(fr, n.obj)
            return self.bump(fr, st, n.obj, p, num(1 if n.op == "++" else -1), n) if p is not None else st
        if n.op in ("+=", "-=", "=") and len(a) == 2:
            t = strip(a[0])
            if t is not None and (integral(t.t) or t.k in ("Member", "Ref", "Call")):
                return self.assign_to(fr, st, a[0], n.op, a[1], n)
            return st
        if c == "condition_variable" and m == "wait" and len(a) == 2 and self.idles:
            return self.pred_wait(fr, a[1], st)
        if n.obj is None and m == "swap" and len(a) == 2:
            for x in a:
                p = self.place(fr, x)
                if p is not None and p[0] == "this" and len(p) == 2 and p[1] in self.fields:
                    st = self.cleared(st, self.fields[p[1]], n)
            return st
        if n.obj is None:
            return st
        o = self.place(fr, n.obj)
        if o is None:
            return st
        role = self.fields.get(o[1]) if o[0] == "this" and len(o) == 2 else None
        if role is None:
            if o[0] == "this" and len(o) == 2 and o[1] == self.r.by.get("table") and m in ("emplace_back", "push_back", "emplace_front", "push_front", "emplace"):
                s = self.tuple_status(a)
                e = self.lin(fr, s) if s is not None else None
                d, r = self.done_value(), self.recon_value()
                if d is not None and r is not None and d != r:
                    from fractions import Fraction
                    st = self.add(st, G("marked"), None if e is None else (e - num(r)).scale(Fraction(1, d - r)), n)
                return st
            if o[0] == "L" and "vector<" in n.obj.t:
                z = o + ("#",)
                if m in ("emplace_back", "push_back"):
                    return st.assign(z, var(z) + num(1))
                if m == "pop_back":
                    return st.assign(z, var(z) - num(1))
                if m == "clear":
                    return st.assign(z, num(0))
                if m in ("resize", "assign") and a:
                    return st.assign(z, self.lin(fr, a[0]))
                if m in ("insert", "erase", "emplace", "swap"):
                    return st.assign(z, None)
            return st
        if m == "clear":
            return self.cleared(st, role, n)
        if role == "requested":
            if m in ("emplace_front", "emplace_back", "push_front", "push_back"):
                self.points.append(("work", "push", fr, n, st))
                return self.add(st, G("pushed"), num(1), n)
            if m in ("pop_front", "pop_back"):
                return self.add(st, G("popped"), num(1), n)
        elif role == "computed":
            if m in ("emplace", "push"):
                v = self.pair_vector(a[0]) if len(a) == 1 else (a[0] if len(a) == 2 else None)
                return self.add(st, G("results"), self.size_of(fr, v) if v is not None else None, n)
            if m == "pop":
                self.points.append(("fetch", "", fr, n, st))
                st = self.busy(st)
                f = o + ("[]", "first", "#")
                st = self.add(st, G("taken"), var(f), n)
                return st.forget([f])
        elif role == "index":
            if m in ("emplace", "insert", "try_emplace", "insert_or_assign"):
                return self.inserted(st, n)
            if m == "erase":
                return self.add(st, G("erased"), num(1), n)
        elif role == "started":
            if m in ("emplace", "insert", "try_emplace"):
                s = self.pair_second(a)
                return self.add(st, G("started"), self.lin(fr, s) if s is not None else None, n)
            if m in ("find", "count"):
                return st.forget([o + ("[]",)])
        return st

    def pred_wait(self, fr, pred, st):
        """the predicate of a wait holds afterwards"""
        g = self.lambda_of(fr, pred)
        if g is None:
            return st
        rets = [x for x in g.walk() if x.k == "Return" and x.args()]
        if len(rets) != 1:
            return st
        sub = Frame(g, FPaths(g, {}, fr.paths), fr)
        for leaf, val in facts(rets[0].args()[0], True):
            s2 = self.idle_edge(sub, leaf, val, st)
            st = s2 if s2 is not None else st
        return st

    kindnames = ()

    def evaluates(self, k):
        return k in self.evalkinds

    evalkinds = ()

    def tuple_status(self, a):
        n = strip(a[0]) if a else None
        if len(a) >= 2:
            return a[1]
        for _ in range(4):
            if n is None:
                return None
            if n.k in ("Call", "Construct", "InitList") and len(n.args()) >= 3:
                return n.args()[1]
            if n.k in ("Construct", "Cast", "InitList") and len(n.args()) == 1:
                n = strip(n.args()[0])
                continue
            return None
        return None

    # ------------------------------------------------------------ branches
    def local(self, e):
        return all(k == ONE or k[0] == "L" or k[0] == "this" and len(k) == 2 and (k[1] in self.assume or k[1] in self.fixed) for k in e.m)

    fixed = ()

    def edge(self, fr, B, i, st):
        if st.empty:
            return None
        c = fr.fn.cfg.cond(B)
        if c is None or len(B.s) != 2:
            return st
        leaf, neg = leaf_cond(c)
        if leaf is None:
            return st
        val = (i == 0) != neg
        fs = facts(leaf, val)
        if not fs and self.idles and any(x.k == "Member" and x.name in self.idles for x in leaf.walk()):
            for i in self.idles:
                st = st.assign(G("idle:" + i), num(0))
        for l, v in fs:
            st = self.learn(fr, l, v, st)
            if st is None:
                return None
        return st

    def learn(self, fr, leaf, val, st):
        """a test had this outcome"""
        if leaf.cv is not None:
            return st if bool(leaf.cv) == val else None
        if self.idles:
            st = self.idle_edge(fr, leaf, val, st)
            if st is None:
                return None
        op, a, b = None, None, None
        if leaf.k == "Bin" and leaf.op in ("==", "!=", "<", ">", "<=", ">="):
            op, a, b = leaf.op, self.lin(fr, leaf.c[0]), self.lin(fr, leaf.c[1])
        elif leaf.k == "Call" and leaf.op in ("==", "!=") and len(leaf.args()) == 2:
            x, y = [strip(z) for z in leaf.args()]
            if x.k == "Ref" and x.name.startswith("__begin") and y.k == "Ref" and y.name.startswith("__end"):
                op, a, b = leaf.op, var(("L", x.d["d"], x.name)), var(("L", y.d["d"], y.name))
        elif leaf.k == "Call" and leaf.obj is not None and leaf.name == "empty":
            p = self.place(fr, leaf.obj)
            if p is not None and p[0] == "L":
                op, a, b = "==", var(p + ("#",)), num(0)
        else:
            e = self.lin(fr, leaf)
            if e is not None and integral(leaf.t):
                op, a, b = "!=", e, num(0)
                if val and unconst(leaf.t).strip() == "bool" and self.local(e):
                    s2 = st.assume(e - num(1))
                    return None if s2.empty else s2
        if op is None or a is None or b is None:
            return st
        d = a - b
        if not self.local(d):
            return st
        k = st.value(d)
        if k is not None:
            r = {"==": k == 0, "!=": k != 0, "<": k < 0, ">": k > 0, "<=": k <= 0, ">=": k >= 0}[op]
            return st if r == val else None
        if op == "==" and val or op == "!=" and not val:
            s2 = st.assume(d)
            return None if s2.empty else s2
        if not val and op in ("<", ">") and self.unit_step(fr, leaf, op):
            s2 = st.assume(d)
            return None if s2.empty else s2
        return st

    def unit_step(self, fr, leaf, op):
        """leaving  i < n  means i == n when i only grows by one (and started no larger)"""
        lhs = strip(leaf.c[0] if op == "<" else leaf.c[1])
        if lhs is None or lhs.k != "Ref":
            if op == ">" and strip(leaf.c[1]) is not None and strip(leaf.c[1]).cv == 0:
                x = strip(leaf.c[0])
                return "unsigned" in x.t or "uint" in x.t      # unsigned x > 0 fails: x == 0
            return False
        loop = None
        for x in leaf.ancestors():
            if x.k in ("For", "While", "Do"):
                loop = x
                break
            if x.k in ("If", "Compound"):
                break
        if loop is None:
            return False
        k = (fr.fn.u, leaf.id)
        if k not in self.stepping:
            ok = False
            for x in loop.walk():
                if x.k == "Un" and x.op == "++" and strip(x.c[0]) is not None and strip(x.c[0]).k == "Ref" and strip(x.c[0]).d["d"] == lhs.d["d"]:
                    ok = True
            self.stepping[k] = ok
        return self.stepping[k]


def zero_test(leaf):
    """(tested expression, does truth mean zero)"""
    leaf = strip(leaf)
    if leaf is None:
        return None, None
    if leaf.k == "Bin" and leaf.op in ("==", "!=", "<", ">", "<=", ">="):
        a, b = strip(leaf.c[0]), strip(leaf.c[1])
        op = leaf.op
        if a is not None and a.cv is not None:
            a, b = b, a
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if b is None or b.cv is None or a is None:
            return None, None
        a = unload(a)
        if b.cv == 0:
            return (a, True) if op in ("==", "<=") else (a, False) if op in ("!=", ">") else (None, None)
        if b.cv == 1:
            return (a, True) if op == "<" else (a, False) if op == ">=" else (None, None)
        return None, None
    if leaf.k in ("Member", "Ref") or leaf.k == "Call" and leaf.obj is not None:
        return unload(leaf), False
    return None, None


def unload(n):
    n = strip(n)
    while n is not None and n.k == "Call" and n.obj is not None and not n.args() and (n.name == "load" or (n.name or "").startswith("operator")):
        n = strip(n.obj)
    return n


def primary(f):
    x = f
    while x.lam and x.parent_fn is not None:
        x = x.parent_fn
    return "<" not in x.q or PRIMARY in x.q


def methods(P):
    out = {}
    for f in P.rec_fns(CLS):
        if primary(f) and not f.lam and f.cfg is not None:
            out.setdefault(f.n, []).append(f)
    return out


def submitted(P, W):
    """task bodies handed to the pool by the driver class: usr -> (lambda, function that submits it)"""
    out = {}
    for f in P.rec_fns(CLS):
        if not primary(f) or f.raw.get("body") is None:
            continue
        for n in f.walk():
            if n.k == "Call" and method_of(n)[0] == "ThreadPool" and n.name in SUBMIT and n.args():
                fr = Frame(f, FPaths(f))
                g = W.lambda_of(fr, n.args()[0])
                if g is not None:
                    out.setdefault(g.u, (g, f))
    return out




def tree(P, g):
    """functions a function may run (calls into the repository, lambdas it calls excluded)"""
    seen, st = {g.u: g}, [g]
    while st:
        f = st.pop()
        for n in f.walk():
            if n.k == "Call":
                h = P.callee(n)
                if h is not None and h.recn == CLS and h.u not in seen:
                    seen[h.u] = h
                    st.append(h)
    return list(seen.values())


def bumps(fs, fields):
    """members changed: name -> list of (function, sign, unit)"""
    out = {}
    for f in fs:
        for n in f.walk():
            t, sign, unit = None, 0, False
            if n.k == "Un" and n.op in ("++", "--"):
                t, sign, unit = n.c[0], 1 if n.op == "++" else -1, True
            elif n.k == "Assign" and n.op in ("+=", "-="):
                t, sign = n.c[0], 1 if n.op == "+=" else -1
            elif n.k == "Call" and n.op in ("++", "--", "+=", "-=") and (n.args() or n.obj is not None):
                t = n.args()[0] if n.args() else n.obj
                sign, unit = (1 if n.op[0] == "+" else -1), n.op in ("++", "--")
            t = strip(t)
            if t is not None and t.k == "Member" and t.name in fields:
                out.setdefault(t.name, []).append((f, sign, unit))
    return out


def calls_on(fs, field, names):
    return [n for f in fs for n in f.walk() if n.k == "Call" and n.name in names and strip(n.obj) is not None and strip(n.obj).k == "Member" and strip(n.obj).name == field]


DRIVER = ("start_first_runs", "run_until_done")


class Setup:
    def __init__(self, P):
        self.P = P
        self.R = Roles(P)
        self.W0 = Work(P, self.R, {})
        self.tasks = submitted(P, self.W0)
        self.kinds = {}
        by, ints = self.R.by, self.R.ints
        for g, f in self.tasks.values():
            self.kinds.setdefault(self.W0.kind_of(g), []).append((g, f))
        self.trees = {k: tree(P, v[0][0]) for k, v in self.kinds.items()}
        self.evalkinds = tuple(k for k, t in self.trees.items() if any(n.k == "Call" and n.name == "eval" and n.obj is not None and "BlackBoxBase" in n.obj.t or n.k == "Call" and n.name == "eval" and n.obj is not None and PRIMARY in n.obj.t for f in t for n in f.walk()))
        self.feeders = tuple(k for k, t in self.trees.items() if calls_on(t, by.get("index"), ("erase",)) and k not in self.evalkinds)
        self.counters = {}
        for k, t in self.trees.items():
            for c in ints:
                if c in (k + "s", k.rsplit("_", 1)[0] + "_jobs"):
                    self.counters[k] = c
            if k not in self.counters and k not in self.evalkinds:
                down = bumps(t, ints)
                up = bumps([f for _, f in self.kinds[k]], ints)
                cand = [c for c in up if any(s > 0 for _, s, _ in up[c]) and any(s < 0 and u for _, s, u in down.get(c, ()))]
                if len(cand) == 1:
                    self.counters[k] = cand[0]
        self.queued = "probes_queued" if "probes_queued" in ints else None
        self.finished = "items_done" if "items_done" in ints else None
        self.pre = next((c for c in ints if c == "precomputed_probes"), None)
        self.rel = None
        # configuration: members no task and no driver function changes
        fs = {f.u: f for t in self.trees.values() for f in t}
        for f in P.rec_fns(CLS):
            if primary(f) and not f.lam and f.n in DRIVER:
                fs.update({h.u: h for h in tree(P, f)})
        wr = set()
        for f in fs.values():
            for n in f.walk():
                t = n.c[0] if n.k == "Assign" or n.k == "Un" and n.op in ("++", "--", "&") else (n.args() or [n.obj])[0] if n.k == "Call" and n.op in ("=", "++", "--", "+=", "-=") else None
                t = strip(t)
                if t is not None and t.k == "Member":
                    wr.add(t.name)
        self.fixed = frozenset(c for c in ints if c not in wr)

    def work(self, assume):
        W = Work(self.P, self.R, assume)
        W.watched = tuple(self.counters.values()) + tuple(x for x in (self.queued, self.finished) if x)
        W.evalkinds = self.evalkinds
        W.kindnames = tuple(self.kinds)
        W.resets = []
        W.fixed = self.fixed
        W.queued = self.queued
        if self.finished:
            W.done_counter = self.finished
        W.kinds = dict(self.W0.kinds)
        W._rel = self.rel
        return W

    def relations(self, own=None):
        """the relations every job keeps: id -> (expression that is 0, text)"""
        V = lambda n: var(("this", n))
        out = {}
        for k, c in sorted(self.counters.items()):
            out["count:" + c] = (V(c) - var(G("pend:" + k)) - num(1 if own == k else 0), "%s counts the %s tasks" % (c, k))
        if self.queued:
            out["queued"] = (V(self.queued) - var(G("indexed")) + var(G("taken")), "%s counts the indexed points that were not fetched" % self.queued)
        out["started"] = (var(G("started")) - var(G("since")), "the recorded number of started probes is the number of points queued")
        out["jobs"] = (var(G("jobs")) - var(G("pushed")), "one evaluation job per queued point")
        if self.finished:
            out["done"] = (V(self.finished) - var(G("marked")), "%s counts the functions marked as done" % self.finished)
        return out

    def state(self, assume, own=None, zero=False):
        st = Aff()
        for m, v in assume.items():
            st = st.assume(var(("this", m)) - num(v))
        for e, _ in self.relations(own).values():
            st = st.assume(e)
        for g in ("popped", "results", "erased", "handed", "taken", "stale_requests", "stale_results", "queued!"):
            st = st.assume(var(G(g)))
        for c in self.counters.values():
            st = st.assume(var(G("idle:" + c)))
        if zero:
            for c in self.counters.values():
                st = st.assume(var(("this", c)))
        return st


def positive_shortage(e):
    """is the expression certainly <= 0: no positive coefficient over (unsigned) quantities"""
    return all(v <= 0 for v in e.m.values())


def run(ctx):
    ctx.rule("count", "at the end of every task and wherever the driver fetches a value, each work counter equals the number of tasks of its kind that were submitted and have not finished")
    ctx.rule("announce", "a task is only submitted after it was announced in its counter")
    ctx.rule("last", "no work is added by a task after it has given back the counts that keep the driver waiting")
    ctx.rule("idle", "the driver only gives up waiting for values after it has seen every work counter at zero")
    ctx.rule("queued", "the number of queued probes is the number of points with an index entry minus the values fetched, and what is fetched is looked up and erased or handed to a task exactly once")
    ctx.rule("started", "the numbers recorded as started are the numbers of points queued")
    ctx.rule("jobs", "for every queued point one evaluation job is submitted, and a job hands back a value for every point it takes from the queue")
    ctx.rule("done", "the number of finished functions is the number of functions marked as finished")
    ctx.rule("clean", "after the pool was stopped, requests and results of the old run are dropped and all counters are zero before the next value is fetched")
    ctx.assume.append("keys put into the index and the started table are new (the index is a running number)")
    ctx.assume.append("tasks are identified by the driver methods they call; other threads keep each relation because their own code is held to it")
    from ..core import load
    cfgs = ("default", "mpi")
    progs = load(cfgs)
    for cfg in cfgs:
        one(ctx, progs[cfg], cfg)


def one(ctx, P, cfg):
    S = Setup(P)
    by = S.R.by
    for r in ("requested", "computed", "index", "started"):
        ctx.need("queued", by.get(r), "member holding the %s probes" % r)
    ctx.need("count", S.counters, "work counters")
    ctx.need("jobs", S.evalkinds, "evaluation jobs")
    mpi = cfg != "default"
    M = methods(P)
    roots = []
    for k, gs in sorted(S.kinds.items()):
        for g, f in gs:
            roots.append(("task", k, g, f))
    for nm in DRIVER:
        if nm in M:
            for f in M[nm]:
                roots.append(("driver", nm, f, None))
        else:
            ctx.notes.append("%s: driver function %s not found" % (cfg, nm))
    seen = set()
    for pre in (0, 1) if S.pre else (None,):
        assume = {} if pre is None else {S.pre: pre}
        if pre == 1 and mpi:
            continue
        for what, k, g, f in roots:
            W = S.work(assume)
            own = k if what == "task" else None
            if what == "driver":
                W.idles = tuple(S.counters.values())
            st = S.state(assume, own, zero=what == "driver" and k == "start_first_runs")
            fr = Frame(g, FPaths(g, {}, FPaths(f) if f is not None else None))
            ex = W.run_frame(fr, st)
            S.rel = W._rel
            verdicts(ctx, S, W, cfg, what, k, g, f, ex, pre, mpi)
    loaded(ctx, S, cfg)


def verdicts(ctx, S, W, cfg, what, k, g, f, ex, pre, mpi):
    tag = "%s%s" % (cfg, ":precomputed" if pre else "")
    name = k if what == "driver" else "%s task" % k
    vague = {p for p, _ in W.vague}

    def holds(rid, key, st, e, where, msg, need=()):
        d = st.norm(e)
        if d.const == 0:
            ctx.ok(rid, "%s [%s] %s" % (key, where, tag))
            return True
        if any(v in vague for v in e.m):
            ctx.notes.append("%s: %s not decided (%s)" % (tag, key, ", ".join(sorted(l for p, l in W.vague if p in e.m))[:120]))
            return None
        ctx.bad(rid, key, where, msg + (" (off by %s)" % pretty(d)))
        return False

    ends = [("end", ex, g.loc())] if ex is not None else []
    fetches = [(x[2], x[4], x[3]) for x in W.points if x[0] == "fetch"]
    if what == "driver":
        for fr, st, n in fetches:
            ends.append(("fetch", st, n.loc()))
    for at, st, loc in ends:
        for rid, (e, text) in S.relations().items():
            r = rid.split(":")[0]
            if r in ("started", "jobs") and (pre or r == "jobs" and mpi):
                continue
            if r == "count" and what == "driver" and at == "end" and k == "start_first_runs":
                continue
            holds(r, "%s:%s:%s" % (name, at, rid), st, e, loc, "not true %s: %s" % ("at the end" if at == "end" else "when a value is fetched", text))
        if what == "driver":
            if k != "start_first_runs" or at != "end":
                for s in ("stale_requests", "stale_results"):
                    holds("clean", "%s:%s:%s" % (name, at, s), st, var(G(s)), loc, "the pool was stopped but the %s of the old run are still there" % ("requests" if s.endswith("sts") else "results"))
            if at == "fetch":
                holds("queued", "%s:%s:handed" % (name, at), st, var(G("taken")) - var(G("erased")) - var(G("handed")), loc, "a fetched value was neither looked up nor handed to a task")
    if what == "task" and ex is not None:
        if k in S.evalkinds:
            holds("jobs", "%s:values" % name, ex, var(G("popped")) - var(G("results")), g.loc(), "the job takes points from the queue without handing back as many values")
        if k in S.feeders:
            z = S_captured(g)
            if z is not None:
                holds("queued", "%s:erased" % name, ex, var(G("erased")) - var(z), g.loc(), "the task does not erase the index entry of every value exactly once")
            else:
                ctx.notes.append("%s: %s: the handed-over indices were not recognised" % (tag, name))
    # ---- announced before
    for x in W.points:
        if x[0] == "submit" and x[1] in S.counters:
            _, kk, fr, n, st = x
            c = S.counters[kk]
            e = st.norm(var(("this", c)) - var(G("pend:" + kk)) - num(1 if what == "task" and k == kk else 0))
            key = "%s:%s:%s" % (name, kk, fr.fn.n)
            if ("this", c) in vague:
                continue
            ctx.check(not positive_shortage(e), "announce", key, n.loc(), "a %s task is submitted although %s does not count it yet" % (kk, c), what="%s [%s] %s" % (key, n.loc(), tag))
        if what == "task" and k in S.counters and (x[0] == "submit" and (x[1] in S.counters or x[1] in S.evalkinds) or x[0] == "work"):
            fr, n, st = x[2], x[3], x[4]
            own = st.norm(var(("this", S.counters[k])) - var(G("pend:" + k)))
            rest = [st.norm(var(("this", c)) - var(G("pend:" + kk))) for kk, c in S.counters.items() if kk != k]
            given = all(v <= 0 for v in own.m.values()) and all(all(v <= 0 for v in r.m.values()) for r in rest)
            key = "%s:%s:%s" % (name, x[1], n.fn.n)
            if ("this", S.counters[k]) in vague:
                continue
            ctx.check(not given, "last", key, n.loc(), "the task adds work after it gave back %s; the driver may already have stopped" % S.counters[k], what="%s [%s] %s" % (key, n.loc(), tag))
    # ---- the driver looked at the counters
    if what == "driver" and fetches and k != "start_first_runs":
        pts = [("drain", x[4], x[3].loc()) for x in W.points if x[0] == "drain"]
        if ex is not None:
            pts.append(("end", ex, g.loc()))
        for at, st, loc in pts:
            for c in S.counters.values():
                holds("idle", "%s:%s:%s" % (name, at, c), st, var(G("idle:" + c)) - num(1), loc, "the driver stops waiting for values on a path where %s was not seen at zero" % c)


def S_captured(g):
    """the size of the captured vector of indices, as the task's body names it"""
    for n in g.walk():
        if n.k == "Ref" and re.match(r"^(const )?std::vector<(unsigned long|uint64_t|unsigned long long)>", n.t) and n.d.get("dk") != "param":
            return ("L", n.d["d"], n.name, "#")
    return None


def pretty(d):
    out = []
    for v, c in sorted(d.m.items(), key=repr):
        nm = "" if v == ONE else str(v[1]) if v[0] in ("ghost", "this") else v[2] + ("" if len(v) < 4 else ".size()") if v[0] == "L" else "a value"
        if c == 1 and nm:
            out.append("+ " + nm)
        elif c == -1 and nm:
            out.append("- " + nm)
        else:
            out.append("%s%s %s" % ("+ " if c > 0 else "- ", abs(c), nm))
    s = " ".join(out)
    return s[2:] if s.startswith("+ ") else s


def loaded(ctx, S, cfg):
    """functions that put values next to their index entries without an evaluation"""
    by = S.R.by
    for f in S.P.rec_fns(CLS):
        if not primary(f) or f.lam or f.cfg is None:
            continue
        if not calls_on([f], by["computed"], ("emplace", "push")) or not calls_on([f], by["index"], ("emplace", "insert", "try_emplace")):
            continue
        W = S.work({})
        ex = W.run(f, S.state({}))
        if ex is None:
            continue
        d = ex.norm(var(G("results")) - var(G("since")) + var(G("started")))
        ctx.check(d.const == 0, "queued", "%s:loaded" % f.n, f.loc(), "values and index entries do not correspond (off by %s)" % pretty(d), what="%s: one value per index entry" % f.n)
        d = ex.norm(var(("this", S.queued)) - var(G("indexed")) + var(G("taken")))
        ctx.check(d.const == 0, "queued", "%s:counted" % f.n, f.loc(), "values put into the queue are not counted (off by %s)" % pretty(d), what="%s: counted" % f.n)
