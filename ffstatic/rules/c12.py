"""C12: every probe has the known factors of its function divided out, once."""
import re
from ..core import *
from ..core import strip
from ..inter import *
from ..inter import leaf_cond, facts
from ..conc import method_of

TECHNIQUE = "interprocedural path-sensitive typestate of a generic array element (distinguished-index abstraction) from the black-box call to every place that hands the values on"
NOTE = ("One function index and one lane stand for all of them: every loop either is or is not at that index, and every full loop visits it exactly once. That a parsed factor string means the "
        "product of the factors is the parser's business (C14); the message layout is C13, the field of the factors C04.")

PRIMARY = "StubBlackBox"
EVALS = ("evaluate_pre", "evaluate")
ELEM = ("[]", "at")
PUSH = ("emplace_back", "push_back")


def primary(f):
    x = f
    while x.lam and x.parent_fn is not None:
        x = x.parent_fn
    return "<" not in x.q or PRIMARY in x.q


def integral(t):
    return re.match(r"^(const )?(unsigned |u?int\d+_t|int|long|size_t|std::size_t|short|char)", t.strip()) is not None and "*" not in t


def bare(e):
    e = strip(e)
    while e is not None and e.k in ("Cast", "Construct") and len(e.args() or e.c) == 1:
        e = strip((e.args() or e.c)[0])
    return e


def put(w, k, v):
    d = dict(w)
    if v is None:
        d.pop(k, None)
    else:
        d[k] = v
    return frozenset(d.items())


def get(w, k):
    for a, b in w:
        if a == k:
            return b
    return None


def dvd_of(dv):
    return tuple(dv[:3]) + (dv[3],)


class Gen(Inter):
    """worlds: what is known about the generic element on a path"""

    def __init__(self, P, factors, scan, sink):
        Inter.__init__(self, P)
        self.factors, self.scan, self.sinks = factors, scan, sink
        self.index_vars = {}
        self.out = []          # (kind, node, frame, world, base)
        self.unclear = []

    def is_event(self, n, fn):
        if n.k == "Call" and n.op in ("/=", "*=") and n.args() and "FFInt" in n.args()[0].t:
            return True
        return n.k == "Call" and (self.black(n) or n.name in EVALS) or n.k == "Member" and n.name in (self.factors, self.sinks)

    def skip(self, g):
        return g.recn in ("ThreadPool", "ShuntingYardParser", "BlackBoxBase", "FFInt", "FFIntVec") or g.recn not in ("Reconstructor", "MPIWorker", "") and not g.lam

    def join(self, a, b):
        return a | b

    def black(self, n):
        return n.k == "Call" and n.name == "eval" and n.obj is not None and "BlackBoxBase" in n.obj.t

    def matters(self, fn, d):
        """is the variable ever used to select an element of field values or a known factor"""
        r = self.index_vars.get(fn.u)
        if r is None:
            r = set()
            for n in fn.walk():
                ix = None
                if n.k == "Call" and n.op == "[]" and len(n.args()) == 2:
                    b, ix = n.args()
                elif n.k == "Call" and n.name in ("at", "find", "count", "contains") and n.obj is not None and n.args():
                    b, ix = n.obj, n.args()[0]
                elif n.k == "Sub" and len(n.c) == 2:
                    b, ix = n.c
                if ix is not None and b is not None and ("FFInt" in b.t or "ShuntingYardParser" in b.t):
                    r |= {x.d["d"] for x in ix.walk() if x.k == "Ref" and "d" in x.d}
                elif n.k == "Call" and self.P.callee(n) is not None:
                    # may be an index in a helper
                    r |= {y.d["d"] for a in n.args() for y in [bare(a)] if y is not None and y.k == "Ref" and "d" in y.d and integral(unconst(y.t.replace("&", "").strip()))}
            # copies of an index
            more = True
            decls = [v for n in fn.walk() if n.k == "Decl" for v in n.vars]
            while more:
                more = False
                for v in decls:
                    if v.d in r and v.init is not None:
                        y = bare(v.init)
                        if y is not None and y.k == "Ref" and y.d.get("d") not in r:
                            r.add(y.d["d"])
                            more = True
            self.index_vars[fn.u] = r
        return d in r

    # ------------------------------------------------------------ expressions
    def mark(self, fr, e, w):
        """is an index the distinguished one: * (yes), o (another one), 0 (the constant), ?"""
        e = strip(e)
        while e is not None and e.k in ("Cast", "Construct", "InitList") and len(e.args() or e.c) == 1:
            e = strip((e.args() or e.c)[0])
        if e is None:
            return "?"
        if e.cv is not None:
            if e.cv == 0:
                return {"y": "*", "n": "o"}.get(get(w, "zero"), "0")
            return "?"
        if e.k == "Ref":
            m = get(w, ("it", self.decl_of(fr, e)))
            return m or "?"
        if e.k == "Member" and e.name == "first" and e.c:
            o = strip(e.c[0])
            if o is not None and o.k == "Ref":
                return get(w, ("key", self.decl_of(fr, o))) or "?"
            if o is not None and o.k == "Call" and o.args():
                o = strip(o.args()[0])
                if o is not None and o.k == "Ref":
                    return get(w, ("key", o.d["d"])) or "?"
        return "?"

    def decl_of(self, fr, e):
        p = fr.of(e)
        if p[0] == "L" and len(p) == 3:
            return p[1]
        return e.d["d"]

    def elem(self, fr, e, w):
        """(array, marks) of an element or array expression, or None"""
        e = strip(e)
        marks = []
        for _ in range(12):
            if e is None:
                return None
            if e.k in ("Cast", "InitList") and len(e.args() or e.c) == 1:
                e = strip((e.args() or e.c)[0])
                continue
            if e.k == "Construct" and len(e.args()) == 1 and (e.d.get("copy") or e.d.get("move") or "FFInt" in e.t and "vector" not in e.t):
                e = strip(e.args()[0])
                continue
            if e.k == "Call" and e.name in ("move", "forward") and len(e.args()) == 1:
                e = strip(e.args()[0])
                continue
            if e.k == "Member" and e.name == "n" and e.c and "FFInt" in e.c[0].t:
                e = strip(e.c[0])
                continue
            if e.k == "Call" and e.op == "[]" and len(e.args()) == 2:
                marks.insert(0, self.mark(fr, e.args()[1], w))
                e = strip(e.args()[0])
                continue
            if e.k == "Call" and e.name == "at" and e.obj is not None:
                marks.insert(0, self.mark(fr, e.args()[0], w))
                e = strip(e.obj)
                continue
            if e.k == "Call" and e.name in ("front",) and e.obj is not None:
                marks.insert(0, "0")
                e = strip(e.obj)
                continue
            if e.k == "Call" and e.name in ("begin", "end", "cbegin", "cend", "data") and e.obj is not None:
                e = strip(e.obj)
                continue
            if e.k == "Sub" and len(e.c) == 2:
                marks.insert(0, self.mark(fr, e.c[1], w))
                e = strip(e.c[0])
                continue
            if e.k == "Ref":
                a = get(w, ("alias", e.d["d"]))
                if a is not None:
                    return (a[0], a[1] + tuple(marks))
            if e.k == "Call" and e.name in EVALS and e.obj is not None:
                return (("eval", e), tuple(marks))
            if e.k in ("Ref", "Member"):
                p = fr.of(e)
                return (p, tuple(marks)) if p[0] != "?" else None
            return None
        return None

    def parser(self, fr, o, w):
        """which factor a parser expression is: its mark, or None when it is not one of the known factors"""
        o = strip(o)
        for _ in range(4):
            if o is None:
                return None
            if o.k == "Member" and o.name == "second" and o.c:
                b = strip(o.c[0])
                if b is not None and b.k == "Call" and (b.op in ("->", "*")):
                    b = strip(b.args()[0] if b.args() else b.obj)
                if b is not None and b.k == "Un" and b.op == "*":
                    b = strip(b.c[0])
                if b is not None and b.k == "Ref":
                    return get(w, ("key", b.d["d"]))
                if b is not None and b.k == "Call" and b.name in ("begin", "cbegin") and b.obj is not None and self.is_factors(fr, b.obj):
                    # whichever factor comes first
                    return "o"
                if b is not None and b.k == "Call":
                    return self.found(fr, b, w)
                return None
            if o.k == "Ref":
                m = get(w, ("par", o.d["d"]))
                return m
            if o.k == "Call" and o.op == "[]" and len(o.args()) == 2 and self.is_factors(fr, o.args()[0]):
                return self.mark(fr, o.args()[1], w)
            if o.k == "Call" and o.name == "at" and o.obj is not None and self.is_factors(fr, o.obj):
                return self.mark(fr, o.args()[0], w)
            return None
        return None

    def is_factors(self, fr, e):
        p = fr.of(e)
        return p == ("this", self.factors)

    def found(self, fr, e, w):
        """mark of the key a find/count looks for"""
        e = strip(e)
        while e is not None and e.k in ("Cast", "Construct") and len(e.args() or e.c) == 1:
            e = strip((e.args() or e.c)[0])
        if e is None:
            return None
        if e.k == "Call" and e.name in ("find", "count", "contains") and e.obj is not None and self.is_factors(fr, e.obj) and e.args():
            return self.mark(fr, e.args()[0], w)
        if e.k == "Ref":
            return get(w, ("key", e.d["d"]))
        return None

    def enter(self, fr, call, g, st):
        args = call.args()
        if call.op and call.obj is None and args and (g.lam or g.kind == "method"):
            args = args[1:]
        for pv, a in zip(g.params, args):
            out = set()
            for w in st:
                w = frozenset(z for z in w if z[0][1] != pv.d)
                if integral(unconst(pv.t.replace("&", "").strip())):
                    m = self.mark(fr, a, w)
                    if m != "?":
                        w = put(w, ("it", pv.d), m)
                else:
                    e = self.elem(fr, a, w)
                    if e is not None and e[1]:
                        dv = self.divisor(fr, e, w)
                        if dv is not None:
                            w = put(w, ("dv", ("L", pv.d, pv.n)), dvd_of(dv))
                        elif get(w, ("val", e[0])) is not None and "&" in pv.t:
                            w = put(w, ("alias", pv.d), e)
                    m = self.parser(fr, a, w)
                    if m is not None:
                        w = put(w, ("par", pv.d), m)
                out.add(w)
            st = frozenset(out)
        return st

    # ------------------------------------------------------------ transfer
    def event(self, fr, kind, n, st):
        if kind not in ("S",):
            if kind == "V":
                v = fr.paths.decls.get(n)
                return frozenset(x for w in st for x in self.declare(fr, v, w)) if v is not None else st
            return st
        if n.k == "Decl":
            for v in n.vars:
                st = frozenset(x for w in st for x in self.declare(fr, v, w))
            return st
        if n.k == "Assign":
            return frozenset(x for w in st for x in self.assign0(fr, n, n.c[0], n.op, n.c[1], w))
        if n.k == "Call":
            a = n.args()
            if n.op in ("/=", "*=", "+=", "-=", "=") and len(a) == 2:
                return frozenset(x for w in st for x in self.assign0(fr, n, a[0], n.op, a[1], w))
            if n.name in PUSH and n.obj is not None:
                st = frozenset(self.push(fr, n, w) for w in st)
            if n.name in EVALS and n.obj is not None:
                st = frozenset(x for w in st for x in self.member_split(fr, n, w))
            if n.obj is not None and n.name in ("emplace", "push", "insert", "emplace_back", "push_back", "operator="):
                p = fr.of(n.obj)
                if p == ("this", self.sinks):
                    self.sink(fr, n, a, st)
            if n.op in ("==", "!=") and len(a) == 2:
                self.compare(fr, n, a, st)
            return st
        return st

    def member_split(self, fr, n, w):
        m = self.parser(fr, n.obj, w)
        if m == "*" and get(w, "mem") is None:
            # evaluated without a test: right when the factor is known, otherwise an empty factor is used
            return [put(w, "mem", "y"), put(w, "mem", "n")]
        return [w]

    def declare(self, fr, v, w):
        d, i = v.d, v.init
        base = ("L", d, v.n)
        w = frozenset(z for z in w if not (z[0][1] == d or z[0][1] == base))
        if i is None:
            return [w]
        t = v.t
        x = strip(i)
        if v.n.startswith("__begin"):
            w = put(w, ("vis", d), "0")
            # what is iterated over
            r = x
            while r is not None and r.k in ("Cast", "Construct") and len(r.args() or r.c) == 1:
                r = strip((r.args() or r.c)[0])
            o = r.obj if r is not None and r.k == "Call" and r.obj is not None else None
            if r is not None and r.k == "Ref":
                v2 = fr.paths.decls.get(r.d["d"])
                if v2 is not None and v2.n.startswith("__range"):
                    o = r
            p = fr.of(o) if o is not None else ("?",)
            if p != ("this", self.factors) and get(w, ("val", p)) is None:
                return [put(w, ("vis", d), None)]
            return [put(w, ("over", d), p)]
        if integral(unconst(t)) and "&" not in t:
            if not self.matters(fr.fn, d):
                return [w]
            if x is not None and x.cv is not None:
                w = put(w, ("vis", d), "0")
                if x.cv != 0:
                    w = put(w, ("part", d), "1")
                return [w]
            m = self.mark(fr, x, w)
            if m != "?":
                w = put(w, ("it", d), m)
            return [w]
        # element of a range-for
        if x is not None and (x.k == "Call" and x.op == "*" or x.k == "Un" and x.op == "*"):
            b = strip((x.args() or x.c)[0])
            if b is not None and b.k == "Ref" and b.name.startswith("__begin"):
                m = get(w, ("it", b.d["d"]))
                o = get(w, ("over", b.d["d"]))
                if o == ("this", self.factors):
                    w = put(w, ("key", d), m or "?")
                elif o is not None and get(w, ("val", o)) is not None and "&" in t:
                    w = put(w, ("alias", d), (o, (m or "?",)))
                return [w]
        # look-up of a factor
        m = self.found(fr, i, w)
        if m is not None:
            return [put(w, ("key", d), m)]
        m = self.parser(fr, i, w)
        if m is not None:
            return [put(w, ("par", d), m)]
        y = x
        for _ in range(4):
            if y is not None and y.k in ("Construct", "Cast") and len(y.args() or y.c) == 1:
                y = strip((y.args() or y.c)[0])
        if y is not None and y.k == "Call":
            if self.black(y):
                w = put(w, ("val", base), "raw")
                return [put(w, ("pt", base), self.point(fr, y, w))]
            if y.name in EVALS and y.obj is not None:
                m = self.parser(fr, y.obj, w)
                if m is not None:
                    return [put(w, ("dv", base), (m, self.point(fr, y, w), get(w, "mem") if m == "*" else None))]
        e = self.elem(fr, i, w)
        if e is not None:
            e0 = self.elem(fr, i, put(w, "zero", None))
            dvd = self.divisor(fr, e0, w) if e0 is not None else None
            if dvd is not None and e[1]:
                # one value of a factor
                return [put(w, ("dv", base), dvd[:3] + (dvd[3],))]
            if "&" in t and get(w, ("val", e[0])) is not None:
                return [put(w, ("alias", d), e)]
            if get(w, ("val", e[0])) is not None and all(m == "*" for m in e[1]):
                w = put(w, ("val", base), get(w, ("val", e[0])))
                return [put(w, ("pt", base), get(w, ("pt", e[0])))]
            return [w]
        s = self.reads(fr, i, w)
        if s:
            w = put(w, ("val", base), s)
        return [w]

    def point(self, fr, call, w):
        a = call.args()
        if not a:
            return ("?",)
        e = self.elem(fr, a[0], w)
        if e is not None and not e[1]:
            return e[0]
        if e is None and not any(x.k in ("Ref", "Member") and "FFInt" in x.t for x in a[0].walk()):
            return ("const",)
        return ("?",)

    def divisor(self, fr, e, w):
        """(mark of the factor, point, known, indices) when the element belongs to an evaluated factor"""
        b, marks = e
        if isinstance(b, tuple) and b and b[0] == "eval":
            c = b[1]
            m = self.parser(fr, c.obj, w)
            if m is None:
                return None
            return (m, self.point(fr, c, w), get(w, "mem") if m == "*" else None, marks)
        dv = get(w, ("dv", b))
        if dv is None:
            return None
        return tuple(dv[:3]) + ((dv[3] if len(dv) > 3 else ()) + marks,)

    def reads(self, fr, e, w):
        """status of the distinguished element if the expression reads it"""
        out = []
        seen = set()
        stack = [e]
        while stack:
            x = stack.pop()
            if x is None:
                continue
            y = strip(x)
            if y is not None and y.k in ("Ref", "Member", "Call", "Sub"):
                el = self.elem(fr, y, w)
                if el is not None and not (isinstance(el[0], tuple) and el[0][0] == "eval"):
                    s = get(w, ("val", el[0]))
                    if s is not None:
                        if (y.k, y.id) not in seen:
                            seen.add((y.k, y.id))
                            if any(m == "?" for m in el[1]):
                                out.append("?")
                            elif all(m in ("*",) for m in el[1]):
                                out.append(s)
                            elif "0" in el[1]:
                                # element 0 is the distinguished one or not
                                out.append("?")
                        if y.k != "Call" or y.op == "[]" or y.name in ("at", "front", "begin", "end", "move", "data"):
                            continue
            if y is not None and y.k == "Call" and y.name in ("size", "empty", "capacity", "reserve"):
                continue
            stack += [c for c in (y.c if y is not None else x.c) if c is not None]
        if not out:
            return None
        return out[0] if len(set(out)) == 1 else "?"

    def assign0(self, fr, n, target, op, rhs, w):
        e = self.elem(fr, target, w)
        if e is not None and "0" in e[1] and get(w, ("val", e[0])) is not None:
            z = get(w, "zero")
            return [self.assign(fr, n, target, op, rhs, put(w, "zero", v)) for v in "yn" if z in (None, v)]
        return [self.assign(fr, n, target, op, rhs, w)]

    def assign(self, fr, n, target, op, rhs, w):
        t = strip(target)
        if t is not None and t.k == "Member" and self.scan and t.name == self.scan and fr.of(t) == ("this", self.scan):
            x = bare(rhs)
            return put(w, "scan", None if x is None or x.cv is None else ("y" if x.cv else "n"))
        if t is not None and t.k == "Ref" and integral(unconst(t.t)):
            if op == "=":
                x = strip(rhs)
                d = t.d["d"]
                if not self.matters(fr.fn, d):
                    return w
                w = put(w, ("it", d), None)
                if x is not None and x.cv is not None:
                    w = put(w, ("vis", d), "0")
                    w = put(w, ("part", d), None if x.cv == 0 else "1")
                else:
                    m = self.mark(fr, x, w)
                    w = put(w, ("vis", d), None)
                    if m != "?":
                        w = put(w, ("it", d), m)
                return w
            if op in ("+=", "-=") and get(w, ("vis", t.d["d"])) is not None:
                x = strip(rhs)
                if x is None or x.cv != 1:
                    return put(w, ("part", t.d["d"]), "1")
            return w
        e = self.elem(fr, target, w)
        if e is None or isinstance(e[0], tuple) and e[0] and e[0][0] == "eval":
            return w
        s = get(w, ("val", e[0]))
        if s is None:
            # a container that is filled element by element or as a whole
            x = strip(rhs)
            if op == "=":
                y = x
                for _ in range(4):
                    if y is not None and y.k in ("Construct", "Cast") and len(y.args() or y.c) == 1:
                        y = strip((y.args() or y.c)[0])
                if y is not None and self.black(y) and not e[1]:
                    w = put(w, ("val", e[0]), "raw")
                    return put(w, ("pt", e[0]), self.point(fr, y, w))
                if y is not None and y.k == "Call" and y.name in EVALS and y.obj is not None and not e[1]:
                    m = self.parser(fr, y.obj, w)
                    return put(w, ("dv", e[0]), (m, self.point(fr, y, w), get(w, "mem") if m == "*" else None) if m is not None else None)
                r = self.reads(fr, rhs, w)
                if r is not None and "?" not in e[1] and all(m == "*" for m in e[1]):
                    return put(w, ("val", e[0]), r)
            return w
        marks = e[1]
        if op == "/=":
            return self.divide(fr, n, e, rhs, s, w)
        if op == "=":
            x = strip(rhs)
            for _ in range(4):
                if x is not None and x.k in ("Construct", "Cast") and len(x.args() or x.c) == 1:
                    x = strip((x.args() or x.c)[0])
            if x is not None and (x.k == "Call" and x.op == "/" or x.k == "Bin" and x.op == "/"):
                l, r = (x.args() if x.k == "Call" else x.c)[:2]
                le = self.elem(fr, l, w)
                if le == e:
                    return self.divide(fr, n, e, r, s, w)
            if x is not None and self.black(x) and not marks:
                w = put(w, ("val", e[0]), "raw")
                return put(w, ("pt", e[0]), self.point(fr, x, w))
            if not marks or all(m == "*" for m in marks):
                r = self.reads(fr, rhs, w)
                return put(w, ("val", e[0]), r or "?")
            return w
        if all(m == "*" for m in marks) or "?" in marks:
            r = self.elem(fr, rhs, w)
            if s == "raw" and "?" not in marks and r is not None and self.divisor(fr, r, w) is not None:
                return put(w, ("val", e[0]), "bad: combined with the factor by %s" % op)
            return put(w, ("val", e[0]), "?")
        return w

    def roots(self, fr, p):
        """everything a local was built from"""
        out, todo = set(), [p]
        while todo:
            q = todo.pop()
            if q in out:
                continue
            out.add(q)
            if q[0] != "L" or len(q) != 3:
                continue
            v = fr.paths.decls.get(q[1])
            es = [v.init] if v is not None and v.init is not None else []
            for n in fr.fn.walk():
                if n.k == "Call" and n.obj is not None and fr.of(n.obj)[:3] == q:
                    es += list(n.args())
                elif n.k == "Assign" and fr.of(n.c[0])[:3] == q:
                    es.append(n.c[1])
                elif n.k == "Call" and n.op == "=" and len(n.args()) == 2 and fr.of(n.args()[0])[:3] == q:
                    es.append(n.args()[1])
            for x in es:
                for y in x.walk():
                    if y.k in ("Ref", "Member") and "FFInt" in y.t:
                        r = fr.of(y)
                        if r[0] == "L":
                            r = r[:3]
                        if r[0] != "?":
                            todo.append(r)
        return out

    def divide(self, fr, n, e, rhs, s, w):
        marks = e[1]
        if any(m == "?" for m in marks):
            self.unclear.append(n.loc())
            return put(w, ("val", e[0]), "?")
        if "0" in marks and not all(m in ("0", "*") for m in marks):
            return w
        if any(m == "o" for m in marks):
            return w
        if "0" in marks:
            return put(w, ("val", e[0]), "?")
        r = self.elem(fr, rhs, put(w, "zero", None))
        dv = self.divisor(fr, r, w) if r is not None else None
        if dv is None and s == "raw":
            y = bare(rhs)
            if y is not None and (y.k == "Call" and y.op in ("*", "+", "-", "/") or y.k == "Bin" and y.op in ("*", "+", "-", "/") or y.cv is not None):
                return put(w, ("val", e[0]), "bad: divided by something else than the factor")
        if dv is None:
            self.unclear.append(n.loc())
            return put(w, ("val", e[0]), "?")
        if s == "?":
            return w
        m, pt, known, idx = dv
        if s == "div":
            return put(w, ("val", e[0]), "bad: divided twice")
        if s != "raw":
            return w
        if m == "o":
            return put(w, ("val", e[0]), "bad: divided by the factor of another function")
        if m != "*":
            return put(w, ("val", e[0]), "?")
        if known == "n":
            return put(w, ("val", e[0]), "bad: divided by a factor that does not exist")
        p0 = get(w, ("pt", e[0]))
        if pt[0] == "?" or p0 is None or p0[0] == "?":
            return put(w, ("val", e[0]), "?")
        if pt != p0 and self.roots(fr, pt) & self.roots(fr, p0):
            return put(w, ("val", e[0]), "?")
        if pt != p0:
            return put(w, ("val", e[0]), "bad: the factor was evaluated at another point")
        if not idx or idx[0] != "0":
            return put(w, ("val", e[0]), "bad: not the value of the factor" if idx else "?")
        lanes = marks[1:]
        if len(idx) > 1 and idx[1] == "o" or len(idx) > 1 and not lanes:
            return put(w, ("val", e[0]), "bad: divided by the factor's value for another point of the bunch")
        if len(idx) > 1 and idx[1] == "0" and lanes:
            return put(w, ("val", e[0]), "bad: divided by the factor's value for another point of the bunch")
        if len(idx) > 1 and idx[1] not in ("*",):
            return put(w, ("val", e[0]), "?")
        return put(w, ("val", e[0]), "div")

    def push(self, fr, n, w):
        p = fr.of(n.obj)
        if p[0] not in ("L", "this") or not n.args():
            return w
        s = None
        for a in n.args():
            s = self.reads(fr, a, w) or s
        if s is None:
            return w
        old = get(w, ("val", p))
        if old is not None:
            s = "bad: handed on twice" if old != "?" and s != "?" else "?"
        return put(w, ("val", p), s)

    # ------------------------------------------------------------ sinks
    def sink(self, fr, n, args, st):
        for w in st:
            s = None
            for a in args:
                for x in a.walk():
                    if x.k in ("Ref", "Member"):
                        v = get(w, ("val", fr.of(x)))
                        if v is not None:
                            s = v
            self.out.append(("hand", n, fr, w, s))

    def compare(self, fr, n, args, st):
        for w in st:
            for a in args:
                e = self.elem(fr, a, w)
                if e is not None and e[1] and not (isinstance(e[0], tuple) and e[0][0] == "eval"):
                    s = get(w, ("val", e[0]))
                    if s is not None and "FFInt" in strip(a).t and get(w, ("pt", e[0])) is not None:
                        self.out.append(("compare", n, fr, w, s))

    # ------------------------------------------------------------ branches
    def edge(self, fr, B, i, st):
        c = fr.fn.cfg.cond(B)
        if c is None or len(B.s) != 2:
            return st
        leaf, neg = leaf_cond(c)
        if leaf is None:
            return st
        val = (i == 0) != neg
        loop = B.tk in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt")
        for l, v in facts(leaf, val):
            st = frozenset(x for w in st for x in self.learn(fr, B, l, v, w, loop))
        return st or None

    def learn(self, fr, B, leaf, val, w, loop):
        if leaf.cv is not None:
            return [w] if bool(leaf.cv) == val else []
        # loops
        if loop:
            r = self.loop_var(fr, leaf, w)
            if r is not None:
                d, full = r
                vis = get(w, ("vis", d))
                over = get(w, ("over", d))
                mapped = over == ("this", self.factors)
                mem = get(w, "mem")
                if val:
                    out = []
                    if vis == "0" and not (mapped and mem == "n"):
                        x = put(put(w, ("it", d), "*"), ("vis", d), "1")
                        if mapped:
                            x = put(x, "mem", "y")
                        out.append(x)
                    out.append(put(w, ("it", d), "o"))
                    return out
                w2 = w
                for k in ("it", "vis", "part", "over"):
                    w2 = put(w2, (k, d), None)
                if mapped:
                    if vis == "1":
                        return [w2]
                    return [] if mem == "y" else [put(w2, "mem", "n")]
                if full and get(w, ("part", d)) is None and vis == "0":
                    return []
                return [w2]
        if leaf.k == "Bin" and leaf.op in ("==", "!=", ">"):
            y = bare(leaf.c[1])
            if y is not None and y.cv == 0 and self.mark(fr, leaf.c[0], w) == "*":
                v = "y" if (leaf.op == "==") == val else "n"
                return [put(w, "zero", v)] if get(w, "zero") in (None, v) else []
        # known factors
        m, pos = self.member_test(fr, leaf, w)
        if m == "*":
            known = get(w, "mem")
            want = "y" if val == pos else "n"
            if known is not None and known != want:
                return []
            return [put(w, "mem", want)]
        if leaf.k == "Call" and leaf.name == "empty" and leaf.obj is not None and self.is_factors(fr, leaf.obj):
            if val:
                return [] if get(w, "mem") == "y" else [put(w, "mem", "n")]
            return [w]
        flag = leaf
        if flag.k == "Call" and flag.obj is not None and (flag.name == "load" or flag.name.startswith("operator ")):
            flag = strip(flag.obj)
        if flag is not None and flag.k == "Member" and self.scan and flag.name == self.scan and fr.of(flag) == ("this", self.scan):
            k = get(w, "scan")
            want = "y" if val else "n"
            if k is not None and k != want:
                return []
            return [put(w, "scan", want)]
        return [w]

    def loop_var(self, fr, leaf, w):
        if leaf.k == "Bin" and leaf.op in ("!=", "<", ">"):
            a, b = leaf.c[0], leaf.c[1]
            if leaf.op == ">":
                a, b = b, a
            a, b = strip(a), strip(b)
            while a is not None and a.k == "Cast":
                a = strip(a.c[0])
            if a is not None and a.k == "Ref" and get(w, ("vis", a.d["d"])) is not None:
                while b is not None and b.k == "Cast":
                    b = strip(b.c[0])
                full = b is not None and (b.k in ("Ref", "Member") or b.cv is not None or b.k == "Call" and b.name == "size")
                lanes = fr.fn.raw.get("targs") or []
                if full and b.cv is not None and lanes and re.match(r"^\d+U?$", str(lanes[0])) and int(str(lanes[0]).rstrip("U")) > b.cv:
                    full = False
                return a.d["d"], full
        if leaf.k == "Call" and leaf.op == "!=" and len(leaf.args()) == 2:
            a = strip(leaf.args()[0])
            if a is not None and a.k == "Ref" and a.name.startswith("__begin") and get(w, ("vis", a.d["d"])) is not None:
                return a.d["d"], True
        return None

    def member_test(self, fr, leaf, w):
        """(mark of the key, does truth mean that it is known)"""
        if leaf.k in ("Call", "Bin") and leaf.op in ("==", "!="):
            x, y = (leaf.args() if leaf.k == "Call" else leaf.c)[:2]
            for a, b in ((x, y), (y, x)):
                b2 = strip(b)
                while b2 is not None and b2.k in ("Cast", "Construct") and len(b2.args() or b2.c) == 1:
                    b2 = strip((b2.args() or b2.c)[0])
                if b2 is not None and b2.k == "Call" and b2.name in ("end", "cend") and b2.obj is not None and self.is_factors(fr, b2.obj):
                    m = self.found(fr, a, w)
                    if m is not None:
                        return m, leaf.op == "!="
                if b2 is not None and b2.cv in (0, 1):
                    m = self.found(fr, a, w)
                    if m is not None and strip(a) is not None and strip(a).k == "Call" and strip(a).name == "count":
                        return m, (leaf.op == "==") == (b2.cv == 1)
        if leaf.k == "Bin" and leaf.op == ">" and strip(leaf.c[1]) is not None and strip(leaf.c[1]).cv == 0:
            m = self.found(fr, leaf.c[0], w)
            if m is not None:
                return m, True
        if leaf.k == "Call" and leaf.name in ("count", "contains"):
            m = self.found(fr, leaf, w)
            if m is not None:
                return m, True
        return None, None


SINKS = {"Reconstructor": None, "MPIWorker": None}


def member(P, cls, pred):
    for r in P.rec(cls):
        if PRIMARY in r.q or PRIMARY in r.tn:
            for f in r.fields:
                if pred(f["t"]):
                    return f["n"]
    return None


def verdict(w, s):
    """None (fine), '' (not decided) or a message"""
    mem, scan = get(w, "mem"), get(w, "scan")
    if s is None or s == "?":
        return ""
    if s.startswith("bad"):
        return s[5:]
    if scan == "y":
        # no factors are known while they are being searched
        return None
    if s == "div":
        return None if mem == "y" else "divided by a factor that does not exist"
    if mem == "n":
        return None
    if mem == "y":
        return "handed on without dividing by the known factor of its function"
    return "handed on without looking for a known factor of its function"


def run(ctx):
    ctx.rule("divided", "every value that is handed on was divided exactly once by the known factor of its own function at its own point, if there is one")
    ctx.rule("paired", "index and values of a point are taken from the same queue entry")
    ctx.rule("sites", "every black-box evaluation belongs to a function whose values are followed to a hand-over")
    ctx.assume.append("loops over indices count in steps of one and reach the size they are compared with (lane counts: C22)")
    from ..core import load
    progs = load(("default", "mpi"))
    for cfg in ("default", "mpi"):
        P = progs[cfg]
        for cls in ("Reconstructor", "MPIWorker"):
            if cls == "Reconstructor" or cfg == "mpi":
                one(ctx, P, cfg, cls)


def one(ctx, P, cfg, cls):
    factors = member(P, cls, lambda t: "map<" in t and "ShuntingYardParser" in t)
    ctx.need("divided", factors, "%s: known factors" % cls)
    if cls == "Reconstructor":
        sink = member(P, cls, lambda t: t.startswith("std::queue<") and "FFInt" in t)
        scan = None
        for f in P.rec_fns(cls):
            if f.n == "enable_factor_scan" and primary(f):
                for x in f.walk():
                    t, r = (x.c[0], x.c[1]) if x.k == "Assign" else (x.args()[0], x.args()[1]) if x.k == "Call" and x.op == "=" and len(x.args()) == 2 else (None, None)
                    if t is not None and strip(t) is not None and strip(t).k == "Member" and bare(r) is not None and bare(r).cv == 1:
                        scan = strip(t).name
    else:
        sink = member(P, cls, lambda t: t.startswith("std::vector<unsigned long"))
        scan = None
    ctx.need("divided", sink, "%s: computed values" % cls)
    G = Gen(P, factors, scan, sink)
    fs = [f for f in P.rec_fns(cls) if primary(f) and f.raw.get("body") is not None and f.cfg is not None]
    sites = {}
    for f in fs:
        for n in f.walk():
            if G.black(n):
                sites[(f.u, n.id)] = (f, n)
    ctx.need("sites", sites, "%s: black-box evaluations" % cls)
    # start from the functions that evaluate; if they do not hand the values on, from their callers
    callers = P.callers()
    todo = {f.u: f for f, _ in sites.values()}
    done, handled = set(), set()
    depth = 0
    while todo and depth < 4:
        nxt = {}
        for u, f in todo.items():
            if u in done:
                continue
            done.add(u)
            G.out, G.unclear = [], []
            G.memo = {}
            start = frozenset([frozenset()])
            fr = Frame(f, FPaths(f, {}, FPaths(f.parent_fn) if f.lam and f.parent_fn is not None else None))
            G.run_frame(fr, start)
            outs = [o for o in G.out if o[4] is not None]
            if not outs:
                for g, _ in callers.get(u, ()):
                    if g.recn == cls or g.lam:
                        nxt[g.u] = g
                continue
            handled.add(u)
            for x in f.walk():
                pass
            by = {}
            for k, n, frx, w, s in outs:
                by.setdefault((k, n), []).append(verdict(w, s))
            for (k, n), vs in sorted(by.items(), key=lambda z: z[0][1].loc()):
                key = "%s:%s%s:%s" % (cls, f.n, targs(f), k)
                bad = sorted({v for v in vs if v})
                if bad:
                    ctx.bad("divided", key, n.loc(), "a value is " + "; ".join(bad))
                elif any(v == "" for v in vs):
                    ctx.notes.append("%s: %s: not decided" % (cfg, key))
                else:
                    ctx.ok("divided", "%s [%s] %s: %d path(s)" % (key, n.loc(), cfg, len(vs)))
        todo = nxt
        depth += 1
    reach = set()
    for (u, _), (f, n) in sorted(sites.items(), key=lambda z: z[1][1].loc()):
        ok = u in handled or any(g.u in handled for g in up(P, f))
        if ok:
            ctx.ok("sites", "%s:%s%s [%s] %s" % (cls, f.n, targs(f), n.loc(), cfg))
        else:
            ctx.notes.append("%s: %s: the values computed in %s were not followed to a hand-over" % (cfg, n.loc(), f.n))
    paired(ctx, P, cfg, cls, fs)


def up(P, f, depth=4):
    out, todo = {}, [f]
    callers = P.callers()
    for _ in range(depth):
        nxt = []
        for x in todo:
            for g, _ in callers.get(x.u, ()):
                if g.u not in out:
                    out[g.u] = g
                    nxt.append(g)
        todo = nxt
    return list(out.values())


def targs(f):
    t = f.raw.get("targs") or []
    return "<%s>" % ",".join(t) if t else ""


class Pairing(Inter):
    """what was read of the first entry of the request queue since it became the first one"""

    def __init__(self, P, queue):
        Inter.__init__(self, P)
        self.q = queue
        self.bad = []
        self.pops = 0
        self.copies = {}

    def is_event(self, n, fn):
        return n.k == "Member" and n.name == self.q

    def skip(self, g):
        return g.recn != "Reconstructor" and not g.lam

    def edge(self, fr, B, i, st):
        # a loop that copies the values of the entry runs at least once
        if B.tk not in ("ForStmt", "WhileStmt", "CXXForRangeStmt") or i != 1 or len(B.s) != 2:
            return st
        l = fr.fn.nodes.get(B.t)
        if l is None:
            return st
        k = (fr.fn.u, l.id)
        if k not in self.copies:
            reads = any(x.k == "Member" and x.name == "second" and x.c and fr.of(x)[:2] == ("this", self.q) for x in l.walk())
            pops = any(x.k == "Call" and x.obj is not None and x.name in ("pop_front", "pop_back", "pop") and fr.of(x.obj) == ("this", self.q) for x in l.walk())
            self.copies[k] = reads and not pops
        if self.copies[k]:
            return frozenset(s | {"second"} for s in st)
        return st

    def event(self, fr, kind, n, st):
        if kind != "S":
            return st
        if n.k == "Member" and n.name in ("first", "second"):
            p = fr.of(n)
            if p[:2] == ("this", self.q) and p[-1] == n.name and len(p) == 4:
                return frozenset(s | {n.name} for s in st)
        if n.k == "Decl":
            # auto entry = std::move(queue.front())
            for v in n.vars:
                if v.init is not None:
                    e = strip(v.init)
                    for _ in range(5):
                        if e is not None and e.k in ("Construct", "Cast") and len(e.args() or e.c) == 1 or e is not None and e.k == "Call" and e.name == "move":
                            e = strip((e.args() or e.c)[0])
                    if e is not None and e.k == "Call" and e.name in ("front", "back") and fr.of(e.obj) == ("this", self.q) and "&" not in v.t:
                        return frozenset(s | {"first", "second"} for s in st)
            return st
        if n.k == "Call" and n.obj is not None and n.name in ("pop_front", "pop_back", "pop") and fr.of(n.obj) == ("this", self.q):
            self.pops += 1
            for s in st:
                if len(s) == 1:
                    self.bad.append((n, fr, next(iter(s))))
            return frozenset([frozenset()])
        return st


def paired(ctx, P, cfg, cls, fs):
    if cls != "Reconstructor":
        return
    q = member(P, cls, lambda t: t.startswith("std::deque<") and "FFInt" in t)
    ctx.need("paired", q, "request queue")
    for f in fs:
        pops = [n for n in f.walk() if n.k == "Call" and n.obj is not None and n.name in ("pop_front", "pop_back") and strip(n.obj) is not None and strip(n.obj).k == "Member" and strip(n.obj).name == q]
        if not pops:
            continue
        A = Pairing(P, q)
        A.run_frame(Frame(f, FPaths(f, {}, FPaths(f.parent_fn) if f.lam and f.parent_fn is not None else None)), frozenset([frozenset()]))
        key = "%s%s" % (f.n, targs(f))
        if A.bad:
            n, fr, got = A.bad[0]
            ctx.bad("paired", key, n.loc(), "a queue entry is dropped after only its %s was taken" % ("index" if got == "first" else "values"))
        elif A.pops:
            ctx.ok("paired", "%s [%s] %s" % (key, pops[0].loc(), cfg))
