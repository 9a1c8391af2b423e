"""C04: a change of prime field refreshes everything that depends on the field.

A typestate analysis over all histories of public calls: what is idle, which
parts have been told about the current field, and which index names it."""
from ..core import *
from ..core import strip
from ..inter import *
from ..inter import leaf_cond, facts
import re
from .c12 import put, get, bare, primary

TECHNIQUE = "interprocedural typestate (idle workers, black box, divided-out factors, queued probes, prime index) over all histories of public calls, plus a must-restore dataflow for temporary changes of the field"
NOTE = ("The workers of a pool are idle from kill_all until a task that computes is submitted. That the processes of an MPI run are idle on the master's change of field is the message exchange's "
        "business (C13). Callers of the parser's constructors are taken to be in one of the library's prime fields.")

MAKE = ("run_task", "run_priority_task", "run_packaged_task")
EMPTIES = ("clear",)
PUSH = ("push", "push_back", "push_front", "emplace", "emplace_back", "emplace_front", "insert")


def fields(P, cls, pred):
    out = []
    for r in P.recs.values():
        if r.n == cls and ("<" not in r.u and "<" not in r.q or "StubBlackBox" in r.u):
            out += [f for f in r.fields if pred(f.get("t", "")) and f["n"] not in [o["n"] for o in out]]
    return out


def is_factor_map(t):
    return "map<" in t and "ShuntingYardParser" in t


class Field(Inter):
    def __init__(self, P, cls, aspect, base=None):
        Inter.__init__(self, P)
        self.cls = cls
        self.aspect = aspect      # told, stale, index: analysed separately, each with what is idle
        self.factor_members = {f["n"] for f in fields(P, cls, is_factor_map)}
        if cls == "Reconstructor":
            self.stores = {f["n"] for f in fields(P, cls, lambda t: re.match(r"^std::(deque|queue|unordered_map<unsigned long)", t) and "FFInt" in t)}
        else:
            self.stores = {f["n"] for f in fields(P, cls, lambda t: t.startswith("std::vector<unsigned long"))}
        self.found = {}
        self.sites = {}
        self.index = set()
        self.flags = set()
        self.tasks = {}
        if aspect != "told":
            self.factor_members = set()
        if aspect != "stale":
            self.stores = set()
        self.nocompute = self.scan = self.main = None

    # ------------------------------------------------------------ roles
    def black(self, n):
        return n.k == "Call" and n.name == "eval" and n.obj is not None and "BlackBoxBase" in n.obj.t

    def task(self, n):
        if n not in self.tasks:
            self.tasks[n] = self.task0(n)
        return self.tasks[n]

    def task0(self, n):
        """what a started task does: e evaluates the black box, f feeds or interpolates (and may start
        others), "" neither; None when no task is started"""
        if n.k != "Call" or n.name not in MAKE or n.obj is None or "ThreadPool" not in n.obj.t:
            return None
        gs = [g for a in n.args() for x in a.walk() if x.k == "Lambda" for g in self.P.lams.get(x.d["lam"], ())]
        if not gs:
            return "e"
        seen, work, kind = set(), list(gs), ""
        while work:
            g = work.pop()
            if g.u in seen:
                continue
            seen.add(g.u)
            for y in g.walk():
                if self.black(y):
                    return "e"
                if y.k == "Call" and y.name in ("feed", "interpolate") and y.obj is not None and "Reconst" in y.obj.t:
                    kind = "f"
                if y.k in ("Call", "Construct"):
                    h = self.P.callee(y)
                    if h is not None and (h.recn in (self.cls, "") or h.lam):
                        work.append(h)
        return kind

    def is_event(self, n, fn):
        if n.k == "Call":
            if n.name in ("set_new_prime", "prime_changed_internal", "precompute_tokens", "kill_all") or n.name in MAKE:
                return True
            if n.op == "=" and n.args() and self.is_flag(n.args()[0]):
                return True
            return self.black(n)
        if n.k == "Assign" and self.is_flag(n.c[0]):
            return True
        return n.k == "Member" and (n.name in self.factor_members or n.name in self.stores or n.name in self.index)

    def is_flag(self, e):
        e = bare(e)
        return e is not None and e.k == "Member" and e.name in self.flags

    def wants(self, kind, n, fn):
        if kind == "V":
            return self.aspect == "told"
        if kind != "S" or n is None:
            return False
        if n.k == "Decl":
            return self.aspect == "told" and any("ShuntingYardParser" in v.t for v in n.vars)
        if n.k == "Call":
            nm = n.name
            if nm in ("set_new_prime", "prime_changed_internal", "precompute_tokens", "kill_all", "for_each", "swap") or nm == "wait" and len(n.args()) == 2 or nm in MAKE or self.black(n):
                return True
            if n.obj is not None and (nm in EMPTIES or nm in PUSH):
                return self.about(n.obj)
            if self.stores and nm in ("move", "front", "back", "begin", "data"):
                return any(x is not None and self.about(x) for x in [n.obj] + list(n.args()))
            if n.op and n.args() and n.op in ("=", "++", "--", "+=", "-="):
                return self.about(n.args()[0])
            return False
        if n.k == "Assign" or n.k == "Un" and n.op in ("++", "--"):
            return self.about(n.c[0])
        return False

    def about(self, e):
        t = e.t
        if any(x.k == "Member" and x.name in self.flags for x in e.walk()):
            return True
        if self.aspect == "told":
            return "ShuntingYardParser" in t
        if self.aspect == "stale":
            return any(x.k == "Member" and x.name in self.stores or x.k == "Ref" and "FFInt" in x.t for x in e.walk())
        return any(x.k == "Member" and (x.name in self.index or x.name in self.flags) or x.k == "Ref" and x.t.replace("const ", "").strip() in ("unsigned int &", "uint32_t &", "bool &") for x in e.walk())

    def skip(self, g):
        return g.recn in ("ThreadPool", "ShuntingYardParser", "BlackBoxBase", "FFInt", "RatReconst", "PolyReconst") or g.recn not in (self.cls, "") and not g.lam

    def join(self, a, b):
        return a | b

    # ------------------------------------------------------------ worlds
    def pool(self, fr, n):
        return ("q", fr.of(n.obj), "e")

    def all_jobs(self, e):
        """does a wait end only when the counts of jobs that feed or interpolate are zero"""
        for x in e.walk():
            if x.k == "Lambda":
                for g in self.P.lams.get(x.d["lam"], ()):
                    rets = [r for r in g.walk() if r.k == "Return" and r.c]
                    if len(rets) == 1:
                        zero = {m.name for l, v in facts(rets[0].c[0], True) for l2, ng in [leaf_cond(l)] if l2 is not None and l2.k == "Bin" and l2.op == "==" and v != ng
                                for m in [bare(l2.c[0])] if m is not None and m.k == "Member" and bare(l2.c[1]) is not None and bare(l2.c[1]).cv == 0}
                        return len(zero) >= 2
        return False

    def idle(self, w):
        return not any(k[0] == "q" for k, v in w)

    def fac(self, fr, e):
        """path of a container of known factors"""
        e = bare(e)
        while e is not None and e.k == "Call" and e.name in ("move", "forward") and len(e.args()) == 1:
            e = bare(e.args()[0])
        if e is None or not is_factor_map(e.t):
            return None
        p = fr.of(e)
        return p if p[0] != "?" else None

    def store(self, fr, e):
        e = bare(e)
        if e is None:
            return None
        p = fr.of(e)
        return p if len(p) == 2 and p[0] == "this" and p[1] in self.stores else None

    def note(self, kind, fr, n, text):
        self.found.setdefault((kind, n.loc()), (n, fr.chain(), set()))[2].add(text)

    def seen(self, kind, n):
        self.sites.setdefault(kind, set()).add(n.loc())

    def key(self, fr, e):
        e = bare(e)
        while e is not None and e.k == "Call" and (e.op in ("*", "->") or e.name in ("move",)):
            e = bare((e.args() or e.c)[0])
        if e is None:
            return None
        if e.k == "Ref":
            v = fr.paths.decls.get(e.d.get("d"))
            if v is not None and "&" in v.t and v.init is not None and "ShuntingYardParser" in v.t:
                k = self.key(fr, v.init)
                if k is not None:
                    return k
            return e.d.get("d")
        return None

    def local_parser(self, fr, e):
        e = bare(e)
        while e is not None and e.k == "Call" and e.name in ("move", "forward") and len(e.args()) == 1:
            e = bare(e.args()[0])
        if e is not None and e.k == "Ref" and "ShuntingYardParser" in e.t:
            p = fr.of(e)
            if p[0] == "L":
                return p[1]
            return e.d.get("d")
        return None

    def element_of(self, fr, e):
        """the container of factors an expression selects an element of (by iteration)"""
        e = bare(e)
        for _ in range(8):
            if e is None:
                return None
            p = self.fac(fr, e)
            if p is not None:
                return p
            if e.k == "Member" and e.c:
                e = bare(e.c[0])
            elif e.k == "Call" and e.op in ("*", "->", "[]") and (e.args() or e.obj is not None):
                e = bare(e.args()[0] if e.args() else e.obj)
            elif e.k == "Call" and e.obj is not None and e.name in ("begin", "end", "at", "find"):
                e = bare(e.obj)
            elif e.k == "Un" and e.op == "*":
                e = bare(e.c[0])
            elif e.k == "Ref":
                v = fr.paths.decls.get(e.d.get("d"))
                if v is None or v.init is None:
                    return None
                e = bare(v.init)
            else:
                return None
        return None

    def loop_over(self, fn, fr, L):
        """container of factors a loop goes through completely"""
        if L is None:
            return None
        if L.k == "ForRange":
            for x in L.c[1].walk() if L.c[1] is not None else ():
                p = self.fac(fr, x)
                if p is not None:
                    return p
        elif L.k in ("For", "While"):
            c = L.c[1] if L.k == "For" else L.c[0]
            for x in c.walk() if c is not None else ():
                if x.k == "Call" and x.name in ("end", "cend") and x.obj is not None:
                    p = self.fac(fr, x.obj)
                    if p is not None:
                        return p
        return None

    # ------------------------------------------------------------ transfer
    def event(self, fr, kind, n, st):
        if kind == "V":
            v = fr.paths.decls.get(n)
            return frozenset(self.declare(fr, v, w) for w in st) if v is not None else st
        if kind != "S" or n is None:
            return st
        if n.k == "Decl":
            for v in n.vars:
                st = frozenset(self.declare(fr, v, w) for w in st)
            return st
        out = set()
        for w in st:
            out |= set(self.step(fr, n, w))
        return frozenset(out)

    def declare(self, fr, v, w):
        w = frozenset(z for z in w if not (z[0][0] == "par" and z[0][1] == v.d))
        t = v.t
        if "ShuntingYardParser" in t and "map<" not in t and "*" not in t and "&" not in t:
            i = strip(v.init) if v.init is not None else None
            fresh = False
            if i is not None and i.k == "Construct":
                # the constructors that take functions prepare them
                fresh = len(i.args()) >= 2
                if not fresh and len(i.args()) == 1:
                    q = self.local_parser(fr, i.args()[0])
                    fresh = q is not None and get(w, ("par", q)) == "f"
            return put(w, ("par", v.d), "f" if fresh else None)
        if is_factor_map(t) and "&" not in t:
            i = bare(v.init) if v.init is not None else None
            s = "E"
            if i is not None:
                s = self.value_of(fr, i, w) or "E"
            return put(w, ("F", ("L", v.d, v.n)), s)
        return w

    def value_of(self, fr, e, w):
        """state of a container of factors an expression yields"""
        e = bare(e)
        p = self.fac(fr, e)
        if p is not None:
            return get(w, ("F", p)) or "E"
        if e is not None and e.k == "Call":
            g = self.P.callee(e)
            if g is not None and g.raw.get("body") is not None:
                st = "E"
                for x in g.walk():
                    if x.k == "Return" and x.c:
                        y = bare(x.c[0])
                        if y is not None and y.k == "Ref":
                            for k, v in w:
                                if k[0] == "F" and k[1][0] == "L" and k[1][1] == y.d.get("d"):
                                    st = v if st in ("E", "F") else st
                return st
        if e is not None and e.k in ("Construct", "InitList") and not e.args():
            return "E"
        return None

    def step(self, fr, n, w):
        if n.k == "Call":
            a = n.args()
            nm = n.name
            if nm == "set_new_prime":
                return [self.change(fr, n, w)]
            if nm == "prime_changed_internal":
                return [put(w, "B", None)]
            if nm == "kill_all" and n.obj is not None and "ThreadPool" in n.obj.t:
                p = fr.of(n.obj)
                return [frozenset(z for z in w if not (z[0][0] == "q" and z[0][1] == p))]
            if nm == "wait" and len(a) == 2 and self.all_jobs(a[1]):
                return [frozenset(z for z in w if not (z[0][0] == "q" and z[0][2] == "f"))]
            if nm in MAKE and self.task(n) is not None:
                if not self.task(n):
                    return [w]
                self.seen("start", n)
                self.require(fr, n, w, "a task is started")
                p = fr.of(n.obj)
                if self.task(n) == "f":
                    w = put(w, ("q", p, "f"), "b")
                if self.task(n) == "e" or get(w, ("fl", self.nocompute)) != "y":
                    w = put(w, ("q", p, "e"), "b")
                for s in self.stores:
                    w = put(w, ("D", s), "d" if get(w, ("D", s)) != "o" else "o")
                return [w]
            if self.black(n):
                self.seen("eval", n)
                if not fr_in_task(fr, self):
                    self.require(fr, n, w, "the black box is evaluated")
                return [w]
            if nm == "precompute_tokens" and n.obj is not None:
                q = self.local_parser(fr, n.obj)
                if q is not None and self.element_of(fr, n.obj) is None:
                    return [put(w, ("par", q), "f")]
                p = self.element_of(fr, n.obj)
                if p is not None and get(w, ("F", p)) == "V":
                    return [put(w, ("F", p), "W")]
                return [w]
            if nm == "for_each" and len(a) == 3:
                p = self.element_of(fr, a[0])
                g = next((h for x in a[2].walk() if x.k == "Lambda" for h in self.P.lams.get(x.d["lam"], ())), None)
                if p is not None and g is not None and any(x.k == "Call" and x.name == "precompute_tokens" for x in g.walk()) and get(w, ("F", p)) == "S":
                    return [put(w, ("F", p), "F")]
                return [w]
            if nm in ("move", "front", "back", "begin", "data"):
                x = a[0] if nm == "move" and len(a) == 1 else n.obj
                s = self.store(fr, x) if x is not None else None
                if s is not None and get(w, ("D", s[1])) == "o":
                    self.note("stale", fr, n, "%s is read although it may still hold values of another field" % s[1])
                return [w]
            if nm == "swap":
                ends = [x for x in ([n.obj] if n.obj is not None else []) + list(a) if x is not None]
                for x in ends:
                    s = self.store(fr, x)
                    if s is not None:
                        w = self.emptied(w, s)
                return [w]
            if n.obj is not None and nm in EMPTIES:
                s = self.store(fr, n.obj)
                if s is not None:
                    return [self.emptied(w, s)]
                p = self.fac(fr, n.obj)
                if p is not None:
                    return [put(w, ("F", p), "E")]
                return [w]
            if n.obj is not None and nm in PUSH:
                s = self.store(fr, n.obj)
                if s is not None and get(w, ("D", s[1])) is None:
                    return [put(w, ("D", s[1]), "d")]
                p = self.fac(fr, n.obj)
                if p is not None:
                    return [self.added(fr, p, a, w)]
                return [w]
            if n.op == "=" and len(a) == 2:
                return [self.assign(fr, n, a[0], a[1], w)]
            if n.op in ("++", "--", "+=", "-=") and a:
                return [self.moved(fr, n, a[0], None, w)]
            return [w]
        if n.k == "Assign":
            if n.op == "=":
                return [self.assign(fr, n, n.c[0], n.c[1], w)]
            return [self.moved(fr, n, n.c[0], None, w)]
        if n.k == "Un" and n.op in ("++", "--"):
            return [self.moved(fr, n, n.c[0], None, w)]
        return [w]

    def emptied(self, w, s):
        return put(w, ("D", s[1]), None) if self.idle(w) else w

    def added(self, fr, p, args, w):
        s = get(w, ("F", p)) or "E"
        fresh = True
        for x in args:
            for y in x.walk():
                if y.k in ("Ref",) and "ShuntingYardParser" in y.t and "map" not in y.t:
                    q = self.local_parser(fr, y)
                    fresh = fresh and get(w, ("par", q)) == "f"
        if not fresh:
            return put(w, ("F", p), "S")
        return put(w, ("F", p), "F" if s == "E" else s)

    def assign(self, fr, n, lhs, rhs, w):
        l = bare(lhs)
        if l is None:
            return w
        s = self.store(fr, l)
        if s is not None:
            r = bare(rhs)
            if r is not None and (r.k in ("Construct", "InitList") or r.k == "Cast") and not r.args():
                return self.emptied(w, s)
            if r is not None and r.k == "Call" and not r.args():
                return self.emptied(w, s)
            return put(w, ("D", s[1]), get(w, ("D", s[1])) or "d")
        p = self.fac(fr, l)
        if p is not None:
            return put(w, ("F", p), self.value_of(fr, rhs, w) or "S")
        if l.k == "Call" and l.op == "[]" and l.args() and self.fac(fr, l.args()[0]) is not None:
            return self.added(fr, self.fac(fr, l.args()[0]), [rhs], w)
        c = bare(rhs)
        return self.moved(fr, n, l, c.cv if c is not None and c.cv is not None else None, w)

    def moved(self, fr, n, lhs, c, w):
        p = fr.of(lhs)
        if not (len(p) == 2 and p[0] == "this" and p[1] in self.index):
            if len(p) == 2 and p[0] == "this" and p[1] in self.flags:
                v = {1: "y", 0: "n"}.get(int(c)) if c is not None else None
                return put(w, ("fl", p[1]), v)
            return w
        m = p[1]
        self.seen("index", n)
        if not self.idle(w):
            self.note("idle", fr, n, "the index of the prime field is changed while tasks may be running")
        L = set(get(w, "L") or ())
        L.discard(m)
        w = put(w, ("c", m), c)
        if c is not None and ("c", c) in L:
            L.add(m)
        return put(w, "L", tuple(sorted(L, key=repr)))

    def change(self, fr, n, w):
        self.seen("change", n)
        if not self.idle(w):
            self.note("idle", fr, n, "the field is changed while tasks may be running")
        if self.aspect == "told":
            w = put(w, "B", "s")
        for k, v in list(w):
            if k[0] == "F" and v in ("F", "V", "W"):
                w = put(w, k, "S")
            elif k[0] == "par":
                w = put(w, k, None)
            elif k[0] == "D" and v == "d":
                w = put(w, k, "o")
        if self.aspect != "index":
            return w
        # which index names the field
        L = set()
        m = self.index_of(n)
        if m is not None:
            L.add(m)
            c = get(w, ("c", m))
            if c is not None:
                L.add(("c", c))
                L |= {x for x in self.index if get(w, ("c", x)) == c}
        else:
            L.add(("x",))
        return put(w, "L", tuple(sorted(L, key=repr)))

    def index_of(self, n):
        """member that selects the prime in the argument of set_new_prime"""
        if not n.args():
            return None
        e, seen = n.args()[0], set()
        while True:
            for x in e.walk():
                i = None
                if x.k == "Call" and x.op == "[]" and len(x.args()) == 2:
                    i = bare(x.args()[1])
                elif x.k == "Call" and x.name == "at" and x.args():
                    i = bare(x.args()[0])
                elif x.k == "Sub" and len(x.c) == 2:
                    i = bare(x.c[1])
                if i is not None and i.k == "Member":
                    return i.name
                if i is not None and i.k == "Ref":
                    v = self.decl(n.fn, i)
                    if v is not None and v.init is not None and bare(v.init) is not None and bare(v.init).k == "Member":
                        return bare(v.init).name
            y = bare(e)
            v = self.decl(n.fn, y) if y is not None and y.k == "Ref" else None
            if v is None or v.init is None or v.d in seen:
                return None
            seen.add(v.d)
            e = v.init

    def decl(self, fn, ref):
        for x in fn.walk():
            if x.k == "Decl":
                for v in x.vars:
                    if v.d == ref.d.get("d"):
                        return v
        return None

    def require(self, fr, n, w, what):
        if get(w, "B") == "s":
            self.note("told", fr, n, what + " although the black box has not been told about the change of the field")
        for k, v in w:
            if k[0] == "F" and k[1][0] == "this" and v in ("S", "V", "W", "X") and get(w, ("fl", self.scan)) != "y":
                self.note("told", fr, n, what + " although the factors that are divided out (%s) may still be prepared for another field" % k[1][1])
            if k[0] == "D" and v == "o":
                self.note("stale", fr, n, what + " although %s may still hold values of another field" % k[1])
        if self.aspect == "index" and self.index:
            L = get(w, "L") or ()
            scanning = self.scan is not None and get(w, ("fl", self.scan)) == "y"
            if self.main in self.index and not scanning and self.main not in L or not any(isinstance(x, str) and x in self.index for x in L):
                self.note("index", fr, n, what + " in a field that no longer belongs to the current prime number")

    # ------------------------------------------------------------ edges
    def edge(self, fr, B, i, st):
        fn = fr.fn
        L = fn.nodes.get(B.t) if B.t is not None else None
        if L is not None and L.k in ("ForRange", "For", "While"):
            p = self.loop_over(fn, fr, L)
            if p is not None:
                out = set()
                for w in st:
                    s = get(w, ("F", p)) or "E"
                    if i == 0:
                        if s == "S" or s == "W":
                            w = put(w, ("F", p), "V")
                        elif s == "V":
                            w = put(w, ("F", p), "X")
                    else:
                        if s in ("S", "W"):
                            w = put(w, ("F", p), "F")
                        elif s in ("V", "X"):
                            w = put(w, ("F", p), "S")
                    out.add(w)
                return frozenset(out)
        c = fn.cfg.cond(B)
        if c is None:
            return st
        leaf, neg = leaf_cond(c)
        val = (i == 0) != neg
        out = set()
        for w in st:
            keep = True
            for l, v in facts(leaf, val):
                l, ng = leaf_cond(l)
                v = v != ng
                w = self.learn(fr, l, v, w)
                if w is None:
                    keep = False
                    break
            if keep:
                out.add(w)
        return frozenset(out) if out else None

    def learn(self, fr, l, v, w):
        if l is None:
            return w
        o = None
        if l.k == "Call" and l.name == "empty" and l.obj is not None:
            o, e = l.obj, v
        elif l.k == "Bin" and l.op in ("==", "!=", ">") and bare(l.c[0]) is not None and bare(l.c[0]).k == "Call" and bare(l.c[0]).name == "size" and bare(l.c[1]) is not None and bare(l.c[1]).cv == 0:
            o, e = bare(l.c[0]).obj, v == (l.op == "==")
        if o is not None:
            p = self.fac(fr, o)
            if p is not None:
                s = get(w, ("F", p)) or "E"
                if e:
                    return put(w, ("F", p), "E")
                return None if s == "E" else w
            s = self.store(fr, o)
            if s is not None and e:
                return self.emptied(w, s)
            return w
        if l.k == "Call" and l.name == "wait" and l.obj is not None and "ThreadPool" in l.obj.t:
            # reports whether there was something to wait for
            if not v:
                p = fr.of(l.obj)
                return frozenset(z for z in w if not (z[0][0] == "q" and z[0][1] == p))
            return w
        m = l
        if l.k == "Call" and l.name in ("operator bool", "load") and l.obj is not None:
            m = strip(l.obj)
        m = bare(m)
        if m is not None and m.k == "Member" and m.name in self.flags:
            p = fr.of(m)
            if len(p) == 2 and p[0] == "this":
                s = get(w, ("fl", p[1]))
                if s is not None and (s == "y") != v:
                    return None
                return put(w, ("fl", p[1]), "y" if v else "n")
        return w


def fr_in_task(fr, self):
    while fr is not None:
        if fr.fn.lam:
            return True
        fr = fr.up
    return False


def run(ctx):
    ctx.rule("idle", "the field and its index are changed only while no task that computes can be running")
    ctx.rule("told", "when a task is started or the black box is evaluated, the black box and the factors that are divided out know the current field")
    ctx.rule("stale", "values computed or requested in another field are gone before new work is started")
    ctx.rule("index", "the current field is the one the current prime number names")
    ctx.rule("restored", "code that changes the field for its own purposes puts it back on every way out")
    ctx.assume.append("precomputed probes are not combined with the search for factors, which chooses its points itself")
    ctx.assume.append("a reconstruction is run again only to continue with further precomputed probes")
    from ..core import load
    progs = load(("default", "mpi", "flint"))
    for cfg in ("flint", "mpi"):
        P = progs[cfg]
        histories(ctx, P, cfg, "Reconstructor")
        if cfg == "mpi":
            histories(ctx, P, cfg, "MPIWorker")
    restored(ctx, progs["default"])
    ctx.rule("forwarded", "telling the black box reaches its own handler, and the library's black boxes prepare every parser they hold")
    forwarded(ctx, progs["default"])
    ctx.rule("prepared", "preparing a parser for a field it was not prepared for computes all its numbers anew")
    prepared(ctx, progs["default"])
    ctx.rule("recorded", "every number that is put into the prepared form is recorded as a number to compute anew in the next field")
    recorded(ctx, progs["default"])


def histories(ctx, P, cfg, cls):
    fs = [f for f in P.rec_fns(cls) if primary(f) and f.raw.get("body") is not None and f.cfg is not None and not f.lam]
    ctx.need("idle", fs, "%s: functions" % cls)
    base = None
    for aspect in ("told", "stale", "index"):
        A = Field(P, cls, aspect, base)
        base = base or A
        one_aspect(ctx, P, cfg, cls, A, fs)


def one_aspect(ctx, P, cfg, cls, A, fs):
    aspect = A.aspect
    init = frozenset()
    bools = {x["n"] for x in fields(P, cls, lambda t: t in ("std::atomic<bool>", "bool"))}
    A.nocompute = no_tasks(P, fs, A, bools)
    A.scan = scan_flag(fs, bools)
    A.flags = ({A.nocompute, A.scan} | guards(P, fs, A, bools)) - {None}
    inits = {x["n"]: initial(x) for x in fields(P, cls, lambda t: True)}
    if aspect == "index":
        if cls != "Reconstructor":
            return
        mine = {x["n"]: x for x in fields(P, cls, lambda t: True)}
        for f in fs:
            for n in f.walk():
                if n.k == "Call" and n.name == "set_new_prime":
                    m = A.index_of(n)
                    if m in mine:
                        A.index.add(m)
        ctx.need("index", A.index, "%s: index of the prime field" % cls)
        # the number of the field the values are counted for
        A.main = next((x.name for f in fs for n in f.walk() if n.k == "Call" and n.name == "feed" and n.obj is not None and "RatReconst" in n.obj.t
                       for a in n.args() for x in [bare(a)] if x is not None and x.k == "Member" and x.name in A.index), None)
        for m in A.index:
            c = (mine[m].get("init") or {}).get("cv")
            if c is not None:
                init = put(init, ("c", m), int(c))
        L = {("c", 0)} | {m for m in A.index if get(init, ("c", m)) == 0}
        init = put(init, "L", tuple(sorted(L, key=repr)))
    for x in A.flags:
        if inits.get(x) is not None:
            init = put(init, ("fl", x), "y" if inits[x] else "n")
    if aspect == "told":
        for x in A.factor_members:
            init = put(init, ("F", ("this", x)), "E")
    elif aspect == "stale":
        ctx.need("stale", A.stores, "%s: containers of points and values" % cls)
    worlds = set()
    for f in fs:
        if f.kind == "ctor":
            r = A.run(f, frozenset([init]))
            worlds |= set(local_free(w) for w in (r or ()))
    ctx.need("idle", worlds, "%s: constructors" % cls)
    # set-up calls in any order, then runs
    api = [f for f in fs if f.kind == "method" and f.raw.get("acc") == "public" and A.relevant(f)]
    runs = [f for f in api if starts(P, f, A)]
    for group in ([f for f in api if f not in runs], runs):
        for rnd in range(8):
            new = set(worlds)
            todo = worlds if group is not runs or rnd == 0 else {w for w in worlds if A.nocompute is not None and get(w, ("fl", A.nocompute)) == "y"}
            for f in group:
                r = A.run(f, frozenset(todo))
                new |= set(local_free(w) for w in (r or ()))
            if A.nocompute is not None and A.scan is not None:
                new = {w for w in new if not (get(w, ("fl", A.nocompute)) == "y" and get(w, ("fl", A.scan)) == "y")}
            if new == worlds:
                break
            worlds = new
        else:
            ctx.notes.append("%s %s: histories not closed" % (cfg, cls))
    ctx.need("idle", A.sites.get("change"), "%s: changes of the field" % cls)
    ctx.need(aspect, A.sites.get("start"), "%s: starts of tasks" % cls)
    for (kind, loc), (n, chain, texts) in sorted(A.found.items(), key=lambda z: z[0]):
        if kind in (aspect, "idle"):
            ctx.bad(kind, "%s:%s:%s" % (cls, n.fn.n, key_of(n)), loc, "%s (%s)" % ("; ".join(sorted(texts)), chain))
    badlocs = set(A.found)
    table = {"told": (("change", "idle"), ("start", "told"), ("eval", "told")), "stale": (("start", "stale"),), "index": (("index", "idle"), ("start", "index"))}
    for kind, r in table[aspect]:
        for loc in sorted(A.sites.get(kind, ())):
            if (r, loc) not in badlocs:
                ctx.ok(r, "%s %s: %s at %s, %d state(s) between calls" % (cfg, cls, kind, loc, len(worlds)))


def initial(x):
    """constant a member starts with"""
    i = x.get("init")
    for _ in range(4):
        if not isinstance(i, dict):
            return None
        if i.get("cv") is not None:
            return int(i["cv"])
        c = [y for y in (i.get("c") or i.get("args") or []) if isinstance(y, dict)]
        if len(c) != 1:
            return None
        i = c[0]
    return None


def starts(P, f, A):
    """can a public function start tasks"""
    seen, work = set(), [f]
    while work:
        g = work.pop()
        if g.u in seen:
            continue
        seen.add(g.u)
        for n in g.walk():
            if n.k == "Call" and A.task(n):
                return True
            if n.k in ("Call", "Construct"):
                h = P.callee(n)
                if h is not None and h.recn == f.recn:
                    work.append(h)
    return False


def key_of(n):
    return (n.name or n.k) + (":" + txt(n)[:40] if n.k in ("Assign", "Un") else "")


def local_free(w):
    return frozenset(z for z in w if not (z[0][0] == "par" or z[0][0] == "F" and z[0][1][0] == "L"))


def scan_flag(fs, flags):
    """the flag set while factors are searched for: nothing is divided out then"""
    for f in fs:
        if f.n == "enable_factor_scan":
            for x in f.walk():
                t, r = (x.c[0], x.c[1]) if x.k == "Assign" else (x.args()[0], x.args()[1]) if x.k == "Call" and x.op == "=" and len(x.args()) == 2 else (None, None)
                if t is not None and strip(t).k == "Member" and strip(t).name in flags and bare(r) is not None and bare(r).cv == 1:
                    return strip(t).name
    return None


def no_tasks(P, fs, A, flags):
    """the flag under which the black box is never evaluated in a task"""
    out = None
    for f in fs:
        for n in f.walk():
            if n.k == "If" and any(x.k == "Call" and A.task(x) == "e" for c in n.c[1:2] if c is not None for x in c.walk()):
                l, neg = leaf_cond(n.c[0])
                if l is not None and l.k in ("Member",) and l.name in flags and neg:
                    out = l.name
    return out


def guards(P, fs, A, flags):
    """flags that only the controlling thread writes and that decide about a change of the field"""
    task = set()
    st = [g for gs in P.lams.values() for g in gs if in_controller(g)]
    out = set()
    for f in fs:
        if not any(n.k == "Call" and n.name == "set_new_prime" for n in f.walk()):
            continue
        for n in f.walk():
            if n.k == "If" and any(x.k in ("Break", "Return", "Continue") or x.k == "Call" and x.name == "set_new_prime" for c in n.c[1:] if c is not None for x in c.walk()):
                own = [x for x in n.c[0].walk() if x.k == "Member" and x.name in flags]
                if len(own) == 1:
                    out.add(own[0].name)
    # written by tasks?
    seen, work = set(), list(st)
    while work:
        g = work.pop()
        if g.u in seen:
            continue
        seen.add(g.u)
        for n in g.walk():
            t = None
            if n.k == "Assign":
                t = strip(n.c[0])
            elif n.k == "Call" and n.op == "=" and n.args():
                t = strip(n.args()[0])
            elif n.k == "Call" and n.name in ("store", "exchange") and n.obj is not None:
                t = strip(n.obj)
            if t is not None and t.k == "Member":
                out.discard(t.name)
            if n.k in ("Call", "Construct"):
                h = P.callee(n)
                if h is not None and h.recn in ("Reconstructor", "MPIWorker"):
                    work.append(h)
    return out


# ------------------------------------------------------------ temporary changes
def restored(ctx, P):
    """functions outside the reconstruction's control that set the field"""
    P.link()
    direct = [f for f in P.fns.values() if f.raw.get("body") is not None and f.cfg is not None and f.recn not in ("Reconstructor", "MPIWorker", "FFInt")
              and any(n.k == "Call" and n.name == "set_new_prime" and "FFInt" in (n.d.get("q") or n.d.get("cq") or "FFInt") for n in f.walk()) and not in_controller(f)]
    direct = [f for f in direct if "/repo/" in f.loc() or not f.loc().startswith("/")]
    ctx.need("restored", direct, "code that changes the field for its own purposes")
    for f in sorted(direct, key=lambda g: g.loc()):
        if f.n == "reset" or f.flag("static"):
            # a reset of the library's state is meant to go to the first field
            ok = all(bare_index(n) == 0 for n in f.walk() if n.k == "Call" and n.name == "set_new_prime")
            if ok:
                ctx.ok("restored", "%s [%s]: returns to the first field" % (f.q, f.loc()))
            else:
                ctx.bad("restored", f.q, f.loc(), "sets a field other than the first one")
            continue
        one_restored(ctx, P, f)


def in_controller(f):
    x = f
    while x.lam and x.parent_fn is not None:
        x = x.parent_fn
    return x.recn in ("Reconstructor", "MPIWorker")


def bare_index(n):
    for x in n.args()[0].walk():
        if x.k == "Call" and x.op == "[]" and len(x.args()) == 2:
            return bare(x.args()[1]).cv
        if x.k == "Sub":
            return bare(x.c[1]).cv
    return None


def reads_current(e):
    e = bare(e)
    return e is not None and e.k in ("Ref", "Member") and e.name == "p" and (e.d.get("q") or "").endswith("FFInt::p")


def one_restored(ctx, P, f):
    fp = FPaths(f, {}, FPaths(f.parent_fn) if f.lam and f.parent_fn is not None else None)

    def place(e):
        e = bare(e)
        if e is None or e.k not in ("Ref", "Member"):
            return None
        p = fp.of(e)
        return p if p[0] != "?" else None

    # state: (field: o (as on entry) / x, frozenset of places that hold the field of entry,
    #         frozenset of places that index it)
    def transfer(kind, n, s):
        field, vals, idx = s
        if kind == "S" and n is not None:
            if is_exit(n):
                return s
            if n.k == "Decl":
                for v in n.vars:
                    p = ("L", v.d, v.n)
                    vals, idx = vals - {p}, idx - {p}
                    if v.init is not None and field == "o" and reads_current(v.init):
                        vals = vals | {p}
                    elif v.init is not None and place(v.init) in vals:
                        vals = vals | {p}
                    elif v.init is not None and place(v.init) in idx:
                        idx = idx | {p}
                return (field, vals, idx)
            t = r = None
            if n.k == "Assign":
                t, r = n.c[0], n.c[1] if n.op == "=" else None
            elif n.k == "Un" and n.op in ("++", "--"):
                t = n.c[0]
            elif n.k == "Call" and n.op == "=" and len(n.args()) == 2:
                t, r = n.args()
            if t is not None:
                p = place(t)
                if p is not None:
                    vals, idx = vals - {p}, idx - {p}
                    if r is not None:
                        if field == "o" and reads_current(r) or place(r) in vals:
                            vals = vals | {p}
                        elif place(r) in idx:
                            idx = idx | {p}
                return (field, vals, idx)
            if n.k == "Call" and n.name == "set_new_prime" and n.args():
                a = bare(n.args()[0])
                if place(a) in vals and place(a) is not None:
                    return ("o", vals, idx)
                i = None
                if a is not None and a.k == "Call" and a.op == "[]" and len(a.args()) == 2:
                    i = a.args()[1]
                elif a is not None and a.k == "Call" and a.name == "at" and a.args():
                    i = a.args()[0]
                elif a is not None and a.k == "Sub":
                    i = a.c[1]
                if i is not None and place(i) in idx and place(i) is not None:
                    return ("o", vals, idx)
                return ("x", vals, idx)
            if n.k == "Call":
                g = P.callee(n)
                if g is not None and g.u != f.u and g.raw.get("body") is not None and any(x.k == "Call" and x.name == "set_new_prime" for x in g.walk()) and g.recn != "FFInt":
                    # checked on its own: puts it back
                    pass
        return s

    def edge(B, i, s):
        c = f.cfg.cond(B)
        if c is None:
            return s
        field, vals, idx = s
        loop = f.nodes.get(B.t) if B.t is not None else None
        if loop is not None and loop.k in ("ForRange", "For") and i == 1 and searches(loop):
            # one of the primes is the current one
            return None
        L, neg = leaf_cond(c)
        val = (i == 0) != neg
        for l, v in facts(L, val):
            l = bare(l)
            # the search for the current prime: for (p : primes()) { if (FFInt::p == p) break; ++k; }
            if l is not None and l.k == "Bin" and l.op in ("==", "!=") and v == (l.op == "==") and field == "o":
                a, b = bare(l.c[0]), bare(l.c[1])
                if reads_current(b):
                    a, b = b, a
                if reads_current(a):
                    idx = idx | counters(f, l, b, place)
                    p = place(b)
                    if p is not None:
                        vals = vals | {p}
        return (field, vals, idx)

    init = ("o", frozenset(), frozenset())
    inn = forward(f, init, transfer, lambda a, b: (a[0] if a[0] == b[0] else "x", a[1] & b[1], a[2] & b[2]), edge)
    ex = inn.get(f.cfg.exit)
    if ex is None:
        return
    # every return passes the exit block; the state there is that of the worst path
    if ex[0] == "o":
        ctx.ok("restored", "%s [%s]: back in the field of entry on every way out" % (f.q, f.loc()))
    else:
        ctx.bad("restored", f.q, f.loc(), "%s changes the prime field and may return without putting back the one it found" % f.q)


def searches(loop):
    """a loop over all primes that ends at the current one"""
    head = loop.c[1]
    if head is None:
        return False
    heads = [head] + ([v.init for v in head.vars if v.init is not None] if head.k == "Decl" else [])
    if not any(x.k == "Call" and x.name == "primes" for h in heads for x in h.walk()):
        return False
    return any(x.k == "Bin" and x.op in ("==", "!=") and (reads_current(x.c[0]) or reads_current(x.c[1])) for x in loop.walk()) and any(x.k in ("Break", "Return") for x in loop.walk())


def counters(f, test, elem, place):
    """places that index primes() where the test of an element of primes() succeeds"""
    out = set()
    # indexed directly: FFInt::p == primes()[k]
    if elem is not None and elem.k == "Call" and elem.op == "[]" and len(elem.args()) == 2:
        p = place(elem.args()[1])
        if p is not None:
            out.add(p)
    # counted along: the loop increments a place once per element
    for L in test.ancestors():
        if L.k in ("ForRange", "For", "While"):
            for x in L.walk():
                if x.k == "Un" and x.op == "++":
                    p = place(x.c[0])
                    if p is not None:
                        out.add(p)
            break
    return frozenset(out)


# ------------------------------------------------------------ parsers
def must_call(f, pred):
    """does every path through a function pass an element the predicate accepts"""
    inn = forward(f, False, lambda k, n, s: None if k == "S" and n is not None and n.k == "Throw" else (s or (k == "S" and n is not None and pred(n))), lambda a, b: a and b)
    return inn.get(f.cfg.exit) in (True, None)


def forwarded(ctx, P):
    n = 0
    for f in P.fns.values():
        if f.n == "prime_changed_internal" and f.raw.get("body") is not None and f.cfg is not None:
            n += 1
            if must_call(f, lambda x: x.k == "Call" and x.name == "prime_changed"):
                ctx.ok("forwarded", "%s [%s]" % (f.q, f.loc()))
            else:
                ctx.bad("forwarded", f.q, f.loc(), "the black box's own handler is not called on every path")
    ctx.need("forwarded", n, "prime_changed_internal")
    for r in P.recs.values():
        own = [x["n"] for x in r.fields if re.match(r"^(firefly::)?ShuntingYardParser$", x.get("t", ""))]
        if not own or not any("BlackBoxBase" in str(b) for b in r.bases):
            continue
        hs = [f for f in P.fns.values() if f.n == "prime_changed" and f.recn == r.n and f.raw.get("body") is not None and f.cfg is not None]
        for h in hs:
            for m in own:
                def hit(x, m=m, depth=0):
                    if x.k != "Call":
                        return False
                    if x.name == "precompute_tokens" and x.obj is not None and strip(x.obj).k == "Member" and strip(x.obj).name == m:
                        return True
                    g = P.callee(x)
                    return depth < 3 and g is not None and g.recn == r.n and g.cfg is not None and must_call(g, lambda y: hit(y, m, depth + 1))
                if must_call(h, hit):
                    ctx.ok("forwarded", "%s::%s [%s]" % (r.n, m, h.loc()))
                else:
                    ctx.bad("forwarded", "%s:%s" % (r.n, m), h.loc(), "%s holds the parser %s but does not prepare it for a new field" % (r.n, m))


def numbers_member(P):
    """the prepared tokens: vectors of (kind, FFInt)"""
    r = next(x for x in P.recs.values() if x.n == "ShuntingYardParser")
    return next((x["n"] for x in r.fields if x.get("t", "").count("vector<") >= 2 and "FFInt" in x["t"] and "pair<" in x["t"]), None)


def recipe_member(P):
    r = next(x for x in P.recs.values() if x.n == "ShuntingYardParser")
    return next((x["n"] for x in r.fields if x.get("t", "").count("vector<") >= 3 and "pair<" in x["t"] and "string" in x["t"]), None)


def writes(n, m):
    """does an element store into (a part of) a member"""
    t = None
    if n.k == "Assign":
        t = n.c[0]
    elif n.k == "Call" and n.op == "=" and n.args():
        t = n.args()[0]
    elif n.k == "Call" and n.name in PUSH + ("pop_back", "erase", "clear", "assign") and n.obj is not None:
        t = n.obj
    if t is None:
        return None
    return t if any(x.k == "Member" and x.name == m for x in t.walk()) else None


def prepared(ctx, P):
    m = numbers_member(P)
    ctx.need("prepared", m, "prepared tokens of the parser")
    fs = [f for f in P.fn("firefly::ShuntingYardParser::precompute_tokens", required=False) or [] if f.cfg is not None]
    ctx.need("prepared", fs, "ShuntingYardParser::precompute_tokens")
    filling = {f.u for f in P.fns.values() if f.recn == "ShuntingYardParser" and f.raw.get("body") is not None and any(writes(n, m) is not None for n in f.walk())}

    def fills(n, depth=0):
        if writes(n, m) is not None and any(x.k in ("Sub",) or x.k == "Call" and x.op == "[]" or x.k == "Call" and x.name in ("at", "emplace_back", "push_back") for x in n.walk()):
            return True
        g = P.callee(n) if n.k == "Call" else None
        return g is not None and g.u in filling and g.recn == "ShuntingYardParser"

    for f in fs:
        def transfer(kind, n, s):
            if kind != "S" or n is None:
                return s
            if n.k == "Throw" or n.k == "Call" and n.name in ("exit", "abort"):
                return None
            return {"new": "done", "?": "?"}.get(s, s) if fills(n) else s

        def edge(B, i, s):
            L = f.nodes.get(B.t) if B.t is not None else None
            if L is not None and L.k in ("For", "ForRange", "While"):
                # going through all functions (there may be none)
                if any(fills(x) for x in L.walk() if x.k in ("Call", "Assign")):
                    return "done"
            c = f.cfg.cond(B)
            if c is None:
                return s
            leaf, neg = leaf_cond(c)
            val = (i == 0) != neg
            for l, v in facts(leaf, val):
                l = bare(l)
                if l is not None and l.k == "Bin" and l.op in ("==", "!=") and (reads_current(l.c[0]) or reads_current(l.c[1])):
                    other = bare(l.c[1] if reads_current(l.c[0]) else l.c[0])
                    if other is not None and other.k in ("Member", "Ref"):
                        same = v == (l.op == "==")
                        if s == "?":
                            s = "same" if same else "new"
            return s

        inn = forward(f, "?", transfer, lambda a, b: a if a == b else ("new" if "new" in (a, b) else "?" if "?" in (a, b) else "done"), edge)
        ex = inn.get(f.cfg.exit)
        if ex == "new":
            ctx.bad("prepared", f.q, f.loc(), "%s may return in a new field without computing the numbers anew" % f.q)
        elif ex == "?":
            ctx.notes.append("precompute_tokens: no comparison with the field of the last preparation found")
        else:
            ctx.ok("prepared", "%s [%s]" % (f.q, f.loc()))


def recorded(ctx, P):
    num, rec = numbers_member(P), recipe_member(P)
    ctx.need("recorded", num and rec, "prepared tokens and their recipes")
    n = 0
    for f in P.fns.values():
        if f.recn != "ShuntingYardParser" or f.raw.get("body") is None or f.cfg is None:
            continue
        refs = aliases(f, rec)
        # numbers computed from a recipe have one
        sites = [x for x in f.walk() if is_number(x, num) and not from_recipe(f, x, rec)]
        if not sites:
            continue

        def transfer(kind, x, s):
            if kind != "S" or x is None:
                return s
            if x.k == "Throw":
                return None
            if writes(x, rec) is not None or x.k == "Call" and x.name in PUSH and x.obj is not None and any(y.k == "Ref" and y.d.get("d") in refs for y in x.obj.walk()):
                return (s[0], True)
            if x in sites_set:
                return (s[0] | {x}, s[1])
            return s
        sites_set = set(sites)
        missing = set()

        def edge(B, i, s):
            L = f.nodes.get(B.t) if B.t is not None else None
            if L is not None and L.k in ("For", "ForRange", "While"):
                if not s[1]:
                    missing.update(s[0])
                return (frozenset(), False)
            return s
        inn = forward(f, frozenset([(frozenset(), False)]), lambda k, x, st: lift(st, lambda s: transfer(k, x, s)), lambda a, b: a | b, lambda B, i, st: lift(st, lambda s: edge(B, i, s)))
        for s in inn.get(f.cfg.exit) or ():
            if not s[1]:
                missing.update(s[0])
        n += len(sites)
        for x in sites:
            if x in missing:
                ctx.bad("recorded", "%s:%s" % (f.n, txt(x)[:50]), x.loc(), "a number is put into the prepared form without a record of how to compute it in the next field")
            else:
                ctx.ok("recorded", "%s: %s" % (x.loc(), txt(x)[:60]))
    ctx.need("recorded", n, "numbers put into the prepared form")


def lift(st, fn):
    out = {fn(s) for s in st} - {None}
    return frozenset(out) if out else None


def named(x, name):
    return x.k == "Ref" and x.d.get("dk") == "enum" and x.name == name


def from_recipe(f, x, m):
    """is a store inside a loop through recipes, or does its value read one"""
    for L in x.ancestors():
        if L.k in ("For", "ForRange", "While"):
            for h in L.c[:-1]:
                if h is None:
                    continue
                for y in list(h.walk()) + ([z for v in h.vars if v.init is not None for z in v.init.walk()] if h.k == "Decl" else []):
                    if y.k == "Member" and y.name == m:
                        return True
    r = x.c[1] if x.k == "Assign" else x.args()[1]
    return any(y.k == "Member" and y.name == m or y.k == "Ref" and y.d.get("d") in aliases(f, m) for y in r.walk())


def aliases(f, m):
    out = set()
    for x in f.walk():
        if x.k == "Decl":
            for v in x.vars:
                if "&" in v.t and v.init is not None and any(y.k == "Member" and y.name == m for y in v.init.walk()):
                    out.add(v.d)
    return out


def is_number(x, m):
    t = writes(x, m)
    if t is None:
        return False
    r = x.c[1] if x.k == "Assign" else x.args()[1] if x.k == "Call" and x.op == "=" and len(x.args()) == 2 else None
    if r is None:
        return False
    tt = strip(t)
    if tt is not None and tt.k == "Member" and tt.name == "second":
        return True
    return any(named(y, "NUMBER") for y in r.walk())
