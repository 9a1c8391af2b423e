"""C13: master and workers agree on the message protocol."""
import re
from collections import deque
from ..core import *
from ..core import strip
from ..inter import FPaths, by_ref, leaf_cond, facts
from .c12 import put, get, primary
from . import c13b

TECHNIQUE = "session-type conformance: the local protocols of master and worker are extracted from the interprocedural CFGs and checked for duality (no stuck, mistyped or orphaned exchange); typestate of MPI requests; affine check of the payload layout"
NOTE = ("One worker stands for all of them: a loop over the ranks treats it exactly once, and the other workers never hold up a point-to-point exchange. Sends are taken to be synchronous (no reliance on buffering). Texts of factors are non-empty and shorter than one "
        "broadcast batch (2147483645 bytes), so the split broadcast is not covered. The flags with which the master's threads wake each other are C11's business.")

INF = 10 ** 18
TOP = (-INF, INF)
CAP = 4
COLL = ("MPI_Bcast", "MPI_Barrier")
SENDS = ("MPI_Isend", "MPI_Send", "MPI_Ssend", "MPI_Issend")
EVENTS = COLL + SENDS + ("MPI_Recv", "MPI_Probe", "MPI_Iprobe", "MPI_Wait", "MPI_Waitall")
OTHER = ("MPI_Get_count", "MPI_Comm_size", "MPI_Comm_rank")
ANY_TAG = -1


def clamp(v):
    lo, hi = v
    lo = -INF if lo < -CAP else min(lo, CAP)
    hi = INF if hi > CAP else max(hi, -CAP)
    return (lo, hi)


def meet(a, b):
    lo, hi = max(a[0], b[0]), min(a[1], b[1])
    return None if lo > hi else (lo, hi)


def mul(a, b):
    r = []
    for x in a:
        for y in b:
            r.append(0 if x == 0 or y == 0 else max(-INF, min(INF, x * y)))
    return (min(r), max(r))


def sat(x):
    return max(-INF, min(INF, x))


def integral(t):
    t = t.replace("const ", "").strip()
    return re.match(r"^(unsigned |u?int\d*(_t)?|int|long|size_t|std::size_t|std::u?int|short|char|bool)", t) is not None and "*" not in t and "&" not in t and "[" not in t


def is_mpi(n):
    return n.k == "Call" and (n.name in EVENTS or n.name in OTHER)


def target(e):
    """the object a pointer argument points to"""
    e = strip(e)
    if e is None:
        return None
    if e.k == "Un" and e.op == "&":
        return strip(e.c[0])
    return e


def dtype(e):
    e = strip(e)
    x = target(e)
    return x.name if x is not None and x.name else txt(e)


class Fr:
    __slots__ = ("fn", "paths", "up", "ret", "key", "frag")

    def __init__(self, fn, paths, up, ret, frag):
        self.fn, self.paths, self.up, self.ret, self.frag = fn, paths, up, ret, frag


class TooLarge(Exception):
    pass


class Proc:
    """the local protocol of one process: configurations (frame, block, element, world)"""

    def __init__(self, P, name, seq, skip=(), insert=None, world=frozenset()):
        self.P = P
        self.name = name
        self.seq = seq          # functions run one after the other
        self.skips = set(skip)
        self.insert = insert    # (predicate on a wait, function)
        self.world = world
        self.frames = {}
        self.memo = {}
        self.els = {}
        self.rel = None
        self.notes = set()
        self.bads = {}
        self.tracked = {}
        self.fragskip = set()
        self.seqnames = {f.n for f in seq}
        recs = {f.recn for f in seq}
        self.consts = {f["n"] for r in P.recs.values() if r.n.split("::")[-1] in recs or r.n.split("<")[0] in recs for f in r.fields if f["t"].startswith("const ")}

    # -- which functions matter
    def relevant(self, g):
        if self.rel is None:
            rel = set()
            for f in self.P.fns.values():
                if f.raw.get("body") is not None and any(n.k == "Call" and n.name in EVENTS for n in f.walk()):
                    rel.add(f.u)
            callers = self.P.callers()
            st = list(rel)
            while st:
                for f, _ in callers.get(st.pop(), ()):
                    if f.u not in rel and not f.lam:
                        rel.add(f.u)
                        st.append(f.u)
            self.rel = rel
        return g.u in self.rel and g.u not in self.skips and g.cfg is not None

    def callee(self, n):
        if n.k not in ("Call", "Construct"):
            return None
        g = self.P.callee(n)
        return g if g is not None and not g.lam and self.relevant(g) else None

    # -- which locals are tracked: those messages carry and those that decide about them
    def track(self, f):
        r = self.tracked.get(f.u)
        if r is None:
            r = set()

            def refs(e):
                return {x.d["d"] for x in e.walk() if x.k == "Ref" and x.d.get("dk") not in ("global", "enum", "func")} if e is not None else set()
            hot = set()

            def conds(n):
                if n.k in ("If", "While", "Switch", "Cond"):
                    return [n.c[0]]
                if n.k == "Do":
                    return [n.c[1]]
                if n.k in ("For", "ForRange"):
                    return [x for x in n.c[:-1] if x is not None]
                return []
            for n in f.walk():
                g = self.callee(n)
                if g is not None and g.u in self.fragskip and f.u not in self.fragskip:
                    g = None
                if is_mpi(n) or g is not None and not (g.u in self.fragskip and f.n not in self.seqnames):
                    for a in n.args():
                        r |= refs(a)
                    for x in n.ancestors():
                        hot.add(x.id)
            for n in f.walk():
                if n.id in hot or n.k == "If" and any(x.k in ("Break", "Continue", "Return") for x in n.walk()) and any(a.id in hot for a in n.ancestors() if a.k in ("For", "While", "Do", "ForRange")):
                    for c in conds(n):
                        if c is None:
                            continue
                        r |= refs(c)
                        for x in c.walk():
                            if x.k == "Decl":
                                r |= {v.d for v in x.vars}
                            if x.k == "Member":
                                r.add(x.name)
            ch = True
            while ch:
                ch = False
                for n in f.walk():
                    dst, src = None, None
                    if n.k == "Assign":
                        d = strip(n.c[0])
                        if d is not None and d.k == "Ref":
                            dst, src = d.d["d"], n.c[1]
                        if dst in r and not refs(src) <= r:
                            r |= refs(src)
                            ch = True
                    elif n.k == "Decl":
                        for v in n.vars:
                            if v.d in r and v.init is not None and not refs(v.init) <= r:
                                r |= refs(v.init)
                                ch = True
            self.tracked[f.u] = r
        return r

    def elements(self, f, B):
        k = (f.u, B.id)
        r = self.els.get(k)
        if r is None:
            r = []
            for kind, n in f.cfg.els(B):
                if kind != "S":
                    continue
                if is_exit(n) or is_mpi(n) or self.callee(n) is not None:
                    r.append(n)
                elif n.k in ("Assign", "Decl", "Un", "Call", "Return"):
                    if n.k == "Un" and n.op not in ("++", "--"):
                        continue
                    r.append(n)
            self.els[k] = r
        return r

    def frame(self, fn, up, ret, call, frag, w):
        env = {}
        if call is not None:
            args = call.args()
            if call.k == "Call" and call.obj is not None:
                env["this"] = up.paths.of(call.obj)
            for pv, a in zip(fn.params, args):
                if by_ref(pv.t) or "*" in pv.t:
                    p = up.paths.of(a)
                    if p[0] != "?":
                        env[pv.d] = p
        key = (fn.u, id(up) if up else None, ret, call.id if call is not None else None, frag)
        fr = self.frames.get(key)
        if fr is None:
            fr = Fr(fn, FPaths(fn, env), up, ret, frag)
            fr.key = len(self.frames)
            self.frames[key] = fr
        if call is not None:
            for pv, a in zip(fn.params, call.args()):
                if pv.d in env:
                    continue
                p = ("L", pv.d, pv.n)
                if integral(pv.t):
                    w = put(w, ("v", p), self.store(self.ev(up, a, w)))
                pr = self.peer(up, a, w)
                if pr is not None:
                    w = put(w, ("peer", p), pr)
                dt = dtype(a)
                if dt.startswith("ompi_") or dt.startswith("MPI_"):
                    w = put(w, ("dt", p), dt)
                if strip(a).k == "Ref" and strip(a).d.get("dk") == "enum":
                    w = put(w, ("tagv", p), strip(a).name)
        return fr, w

    # -- values
    def store(self, v):
        return None if v is None or v == TOP else clamp(v)

    def lv(self, fr, e):
        e = strip(e)
        if e is None:
            return None
        p = fr.paths.of(e)
        return p if p[0] in ("L", "this", "S") else None

    def ev(self, fr, e, w, d=0):
        e = strip(e)
        if e is None or d > 15:
            return TOP
        if e.cv is not None:
            return (e.cv, e.cv)
        if e.k == "Ref" or e.k == "Member" or e.k == "Sub" or e.k == "Call" and e.op == "[]":
            if e.k == "Ref" and e.d.get("dk") != "global":
                dv = fr.paths.decls.get(e.d.get("d"))
                if dv is not None and dv.t.startswith("const ") and dv.init is not None and dv.init.cv is not None:
                    return (dv.init.cv, dv.init.cv)
                v = get(w, ("v", fr.paths.of(e)))
                if v is not None:
                    return v
                if e.t.replace("const ", "").startswith(("unsigned", "uint", "std::uint", "size_t")):
                    return (0, INF)
                dv = fr.paths.decls.get(e.d.get("d"))
                if dv is not None and dv.t.startswith("const ") and dv.init is not None and d < 10:
                    return self.ev(fr, dv.init, w, d + 1)
                return TOP
            if e.k == "Ref":
                g = self.P.globals.get(e.d.get("u") or e.d.get("d"))
                if g is None:
                    k = ("g", e.d.get("q") or e.name)
                    if k not in self.memo:
                        self.memo[k] = next((x for x in self.P.globals.values() if x.q == k[1] and x.const), None)
                    g = self.memo[k]
                if g is not None and g.const and g.init is not None:
                    x = strip(g.init)
                    for y in (g.init, x):
                        if y.cv is not None:
                            return (y.cv, y.cv)
            if e.k == "Member":
                v = get(w, ("v", fr.paths.of(e)))
                if v is not None:
                    return v
            if e.k in ("Sub", "Call"):
                v = get(w, ("v0", self.first(fr, e)))
                if v is not None:
                    return v
            return (0, INF) if e.t.replace("const ", "").startswith(("unsigned", "uint", "std::uint", "size_t")) else TOP
        if e.k == "Un" and e.op in ("-", "+"):
            v = self.ev(fr, e.c[0], w, d + 1)
            return v if e.op == "+" else (-v[1], -v[0])
        if e.k == "Bin":
            a, b = self.ev(fr, e.c[0], w, d + 1), self.ev(fr, e.c[1], w, d + 1)
            if e.op == "+":
                return (sat(a[0] + b[0]) if a[0] > -INF and b[0] > -INF else -INF, sat(a[1] + b[1]) if a[1] < INF and b[1] < INF else INF)
            if e.op == "-":
                return (sat(a[0] - b[1]) if a[0] > -INF and b[1] < INF else -INF, sat(a[1] - b[0]) if a[1] < INF and b[0] > -INF else INF)
            if e.op == "*":
                return mul(a, b)
            if e.op == "/" and b[0] == b[1] and b[0] > 0:
                q = lambda x: x if abs(x) >= INF else int(x / b[0]) if abs(x) < 2 ** 50 else x // b[0]
                return (q(a[0]), q(a[1]))
            if e.op == "%" and a[0] >= 0 and b[0] == b[1] and b[0] > 0:
                return (0, b[0] - 1)
            return TOP
        if e.k == "Call" and e.obj is not None and e.name in ("size", "length"):
            v = get(w, ("size", fr.paths.of(e.obj)))
            if v is not None:
                return v
            if "string" in e.obj.t:
                return (1, 2147483644)
            return (0, INF)
        if e.t.replace("const ", "").startswith(("unsigned", "uint", "std::uint", "size_t")):
            return (0, INF)
        return TOP

    def first(self, fr, e):
        """the container whose first element an expression denotes"""
        e = strip(e)
        if e is not None and (e.k == "Sub" or e.k == "Call" and e.op == "[]"):
            a = e.args() if e.k == "Call" else e.c
            if len(a) == 2 and strip(a[1]).cv == 0:
                return fr.paths.of(a[0])
        if e is not None and e.k == "Call" and e.obj is not None and e.name in ("front", "data"):
            return fr.paths.of(e.obj)
        return None

    # -- who is meant
    def linear(self, fr, e, w):
        """v + c with a local v, or world_size + c: (root, c)"""
        e = strip(e)
        if e is None:
            return None
        if e.cv is not None:
            return (None, e.cv)
        if e.k == "Bin" and e.op in ("+", "-"):
            a, b = self.linear(fr, e.c[0], w), self.linear(fr, e.c[1], w)
            if a is None or b is None:
                return None
            if b[0] is None:
                return (a[0], a[1] + b[1] if e.op == "+" else a[1] - b[1])
            if a[0] is None and e.op == "+":
                return (b[0], a[1] + b[1])
            return None
        if e.k == "Member" and e.name == "world_size" or e.k == "Ref" and e.name == "world_size" and e.d.get("dk") == "global":
            return ("ranks", 0)
        if e.k == "Ref":
            p = fr.paths.of(e)
            a = get(w, ("lin", p))
            if a is not None:
                return a
            v = fr.paths.decls.get(e.d.get("d"))
            if v is not None and v.init is not None and ("const" in v.t) and p[0] == "L":
                r = self.linear(fr, v.init, w)
                if r is not None and r[0] == "ranks":
                    return r
            if p[0] == "this" and p[-1] == "world_size":
                return ("ranks", 0)
            return (p, 0)
        return None

    def peer(self, fr, e, w):
        """'W' (the generic worker), 'M', 'other', None: unknown"""
        e = strip(e)
        if e is None:
            return None
        if e.k == "Ref":
            if e.d.get("dk") == "global" and e.name == "master":
                return "M"
            p = fr.paths.of(e)
            r = get(w, ("peer", p))
            if r is not None:
                return r
        if e.k == "Member" and e.name == "MPI_SOURCE":
            return get(w, ("src", fr.paths.of(e.c[0])))
        if e.k == "Member" and e.name in ("first", "second") and e.c:
            b = fr.paths.of(e.c[0])
            r = get(w, ("peer", b))
            if r is not None:
                return r
        if e.cv is not None and e.cv == -1:
            return "any"
        l = self.linear(fr, e, w)
        if l is not None and l[0] is not None and l[0] != "ranks":
            rk = get(w, ("rank", l[0]))
            if rk is not None:
                vis, s, b = rk
                if not vis:
                    return None
                if s is None:
                    self.notes.add("the first rank of the loop over %s is not known" % (txt(e)))
                    return "W"
                if s + l[1] != 1 or b + l[1] != 0:
                    self.bads[("ranks", e.fn.u)] = ("exchange", "%s.ranks" % short(fr.fn), e.loc(), "%s goes through the ranks %s to %s instead of all workers 1 .. world_size-1" % (short(fr.fn), s + l[1], "world_size%+d" % (b + l[1] - 1)))
                return "W"
        return None

    def tag(self, fr, e, w):
        e = strip(e)
        if e is None:
            return None
        if e.k == "Ref" and e.d.get("dk") == "enum":
            return e.name
        if e.cv == -1:
            return "any"
        if e.k == "Member" and e.name == "MPI_TAG":
            return get(w, ("tag", fr.paths.of(e.c[0])))
        if e.k == "Ref":
            v = fr.paths.decls.get(e.d.get("d"))
            if v is not None and v.init is not None and strip(v.init).k == "Ref" and strip(v.init).d.get("dk") == "enum":
                return strip(v.init).name
            return get(w, ("tagv", fr.paths.of(e))) or ("#%d" % e.cv if e.cv is not None else None)
        return "#%d" % e.cv if e.cv is not None else None

    def dt(self, fr, e, w):
        x = target(e)
        if x is not None and x.k == "Ref":
            r = get(w, ("dt", fr.paths.of(x)))
            if r:
                return r
        return dtype(e)

    # -- conditions
    def refine(self, fr, leaf, val, w):
        leaf = strip(leaf)
        if leaf is None:
            return [w]
        if leaf.k == "Call" and leaf.op == "!" and leaf.args():
            return self.refine(fr, leaf.args()[0], not val, w)
        if leaf.k == "Un" and leaf.op == "!":
            return self.refine(fr, leaf.c[0], not val, w)
        if leaf.k == "Bin" and leaf.op in ("&&", "||"):
            if (leaf.op == "&&") == val:
                out = []
                for x in self.refine(fr, leaf.c[0], val, w):
                    out += self.refine(fr, leaf.c[1], val, x)
                return out
            return self.refine(fr, leaf.c[0], val, w) + [y for x in self.refine(fr, leaf.c[0], not val, w) for y in self.refine(fr, leaf.c[1], val, x)]
        if leaf.k == "Bin" and leaf.op in ("==", "!=", "<", ">", "<=", ">="):
            return self.compare(fr, leaf, val, w)
        if leaf.k == "Call" and leaf.name == "empty" and leaf.obj is not None:
            p = fr.paths.of(leaf.obj)
            if not self.hot(fr, p) and get(w, ("size", p)) is None:
                return [w]
            cur = get(w, ("size", p)) or (0, INF)
            v = meet(cur, (0, 0) if val else (1, INF))
            if v is None:
                return []
            return [put(w, ("size", p), self.store(v)) if ("size", p) in {k for k, _ in w} or not val else w]
        # a flag of another thread, or a local one
        x = leaf
        if x.k == "Call" and (x.name in ("load",) or x.name.startswith("operator")) and x.obj is not None:
            x = strip(x.obj)
        if x.k == "Member":
            p = fr.paths.of(x)
            if get(w, ("T", p)):
                return [w] if val else []
            if not self.hot(fr, p):
                return [w]
            return [put(w, ("T", p), True)] if val else [w]
        if x.k == "Ref":
            if not self.hot(fr, fr.paths.of(x)):
                return [w]
            v = self.ev(fr, x, w)
            r = meet(v, (1, INF)) if val else meet(v, (0, 0))
            if val and v[0] < 0:
                r = v if v != (0, 0) else None
            if r is None:
                return []
            return [put(w, ("v", fr.paths.of(x)), self.store(r))]
        return [w]

    NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}
    FLIP = {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}

    def compare(self, fr, leaf, val, w):
        op = leaf.op if val else self.NEG[leaf.op]
        a, b = strip(leaf.c[0]), strip(leaf.c[1])
        # tags
        for x, y in ((a, b), (b, a)):
            if x.k == "Member" and x.name == "MPI_TAG" or x.k == "Ref" and get(w, ("tagv", fr.paths.of(x))) is not None and y.k == "Ref" and y.d.get("dk") == "enum":
                t = self.tag(fr, x, w)
                u = self.tag(fr, y, w)
                if t is None or u is None or t == "any":
                    return [w]
                return [w] if (t == u) == (op == "==") else []
        # loops over the ranks
        for x, y, o in ((a, b, op), (b, a, self.FLIP[op])):
            if x.k == "Ref" and integral(x.t.replace("const ", "")):
                l = self.linear(fr, y, w)
                if l is not None and l[0] == "ranks":
                    p = fr.paths.of(x)
                    bound = l[1]
                    if leaf.op in ("<=", ">="):
                        bound += 1 if (o in ("<=", ">")) else 0
                    if o in ("!=", "<", "<="):
                        cur = get(w, ("rank", p))
                        if cur is None:
                            v = get(w, ("v", p))
                            s = v[0] if v is not None and v[0] == v[1] else None
                            return [put(w, ("rank", p), (1, s, bound))]
                        return [] if cur[0] else [put(w, ("rank", p), (1,) + cur[1:])]
                    cur = get(w, ("rank", p))
                    if cur is None:
                        return []
                    return [put(w, ("rank", p), None)]
        va, vb = self.ev(fr, a, w), self.ev(fr, b, w)

        def cut(v, o, u):
            if o == "==":
                return meet(v, u)
            if o == "!=":
                if u[0] == u[1]:
                    if v == u:
                        return None
                    if v[0] == u[0]:
                        return (v[0] + 1, v[1])
                    if v[1] == u[0]:
                        return (v[0], v[1] - 1)
                return v
            if o == "<":
                return meet(v, (-INF, u[1] - 1 if u[1] < INF else INF))
            if o == "<=":
                return meet(v, (-INF, u[1]))
            if o == ">":
                return meet(v, (u[0] + 1 if u[0] > -INF else -INF, INF))
            return meet(v, (u[0], INF))
        na, nb = cut(va, op, vb), cut(vb, self.FLIP[op], va)
        if na is None or nb is None:
            return []
        for x, v in ((a, na), (b, nb)):
            if x.k in ("Ref", "Member") and x.cv is None and x.d.get("dk") != "global":
                if not self.hot(fr, fr.paths.of(x)):
                    continue
                w = put(w, ("v", fr.paths.of(x)), self.store(v))
            elif self.first(fr, x) is not None:
                if not self.hot(fr, self.first(fr, x)):
                    continue
                w = put(w, ("v0", self.first(fr, x)), self.store(v))
            elif x.k == "Call" and x.name in ("size", "length") and x.obj is not None and "string" not in x.obj.t and self.hot(fr, fr.paths.of(x.obj)):
                w = put(w, ("size", fr.paths.of(x.obj)), self.store(v))
        return [w]

    def hot(self, fr, p):
        """is a path tracked?"""
        if p[0] == "L":
            return p[1] in self.track(fr.fn) or self.owner(p[1]) is not None and self.owner(p[1])[0] != fr.fn.u
        return p[0] == "this" and (p[-1] in self.track(fr.fn) or p[-1] in self.consts)

    # -- steps that are not messages
    def drop(self, w, p):
        return frozenset((k, v) for k, v in w if not (isinstance(k, tuple) and len(k) == 2 and k[1] == p and k[0] in ("v", "v0", "size", "peer", "rank", "lin", "tag", "src", "msg", "req")))

    def local(self, fr, n, w):
        """[worlds]"""
        if n.k == "Decl":
            ws = [w]
            for v in n.vars:
                p = ("L", v.d, v.n)
                out = []
                for x in ws:
                    if v.d in fr.paths.decls and fr.paths._alias(v) and v.init is not None and not self.fronted(fr, v.init):
                        out.append(x)
                        continue
                    i = self.ev(fr, v.init, x) if v.init is not None and integral(v.t) else None
                    pr = self.peer(fr, v.init, x) if v.init is not None else None
                    ln = self.linear(fr, v.init, x) if v.init is not None and integral(v.t) else None
                    keep = [(k, val) for k, val in x if k == ("req", p)]
                    y = self.drop(x, p)
                    y = y | frozenset(keep)
                    if v.d in self.track(fr.fn):
                        if i is not None:
                            y = put(y, ("v", p), self.store(i))
                        if pr in ("W", "other", "M"):
                            y = put(y, ("peer", p), pr)
                        if v.init is not None and strip(v.init).k == "Member" and strip(v.init).name == "MPI_TAG":
                            y = put(y, ("tagv", p), self.tag(fr, v.init, x))
                        if ln is not None and ln[0] is not None:
                            y = put(y, ("lin", p), ln)
                        q = self.fronted(fr, v.init) if v.init is not None else None
                        if q is not None:
                            if get(x, ("idle", q)):
                                out.append(put(put(y, ("peer", p), "W"), ("idle", q), None))
                            y = put(y, ("peer", p), "other")
                    if "vector" in v.t and v.init is not None and v.d in self.track(fr.fn):
                        s = strip(v.init)
                        z = get(x, ("size", fr.paths.of(s))) if s is not None and s.k in ("Ref", "Member") else None
                        if z is not None:
                            y = put(y, ("size", p), z)
                        elif s is not None and s.k == "Construct" and not s.args():
                            y = put(y, ("size", p), (0, 0))
                    out.append(y)
                ws = out
            return ws
        if n.k == "Assign" or n.k == "Call" and n.op == "=" and len(n.args()) == 2:
            l, r = (n.c[0], n.c[1]) if n.k == "Assign" else n.args()
            l = strip(l)
            p = self.lv(fr, l)
            if p is None:
                return [w]
            if get(w, ("idle", p)) is not None:
                return [put(w, ("idle", p), None)]
            if n.k == "Assign" and n.op != "=":
                if l.k == "Ref" and l.d["d"] in self.track(fr.fn):
                    v = TOP
                    o = n.op[:-1]
                    a, b = self.ev(fr, l, w), self.ev(fr, r, w)
                    if o == "+" and a[0] > -INF and b[0] > -INF:
                        v = (sat(a[0] + b[0]), sat(a[1] + b[1]))
                    elif o == "-" and b[1] < INF:
                        v = (sat(a[0] - b[1]) if a[0] > -INF else -INF, sat(a[1] - b[0]) if b[0] > -INF else INF)
                    w = put(w, ("v", p), self.store(v))
                return [w]
            s = strip(r)
            z = get(w, ("size", fr.paths.of(s))) if s is not None and s.k in ("Ref", "Member") else None
            moved = s is not None and s is not r and any(x.k == "Call" and x.name == "move" for x in r.walk())
            if l.k == "Member":
                w = put(w, ("T", p), None)
                if self.hot(fr, p) and integral(l.t) and n.k == "Assign" and n.op == "=":
                    return [put(w, ("v", p), self.store(self.ev(fr, r, w)))]
                w = put(w, ("v", p), None)
            if l.k == "Ref" and l.d["d"] in self.track(fr.fn) or get(w, ("size", p)) is not None or z is not None and self.hot(fr, p):
                if integral(l.t):
                    i = self.ev(fr, r, w)
                    pr = self.peer(fr, r, w)
                    w = put(self.drop(w, p), ("v", p), self.store(i))
                    if pr in ("W", "other", "M"):
                        w = put(w, ("peer", p), pr)
                else:
                    w = put(w, ("size", p), z)
                    if moved and s is not None:
                        w = put(w, ("size", fr.paths.of(s)), (0, 0))
            return [w]
        if n.k == "Un":
            x = strip(n.c[0])
            if x is not None and x.k == "Member":
                return [put(w, ("v", fr.paths.of(x)), None)]
            if x is not None and x.k == "Ref" and x.d["d"] in self.track(fr.fn):
                p = fr.paths.of(x)
                a = self.ev(fr, x, w)
                s = 1 if n.op == "++" else -1
                v = (a[0] + s if abs(a[0]) < INF else a[0], a[1] + s if abs(a[1]) < INF else a[1])
                if a[0] == CAP and s == 1:
                    v = (CAP, v[1])
                w = put(w, ("v", p), self.store(v))
                pr = get(w, ("peer", p))
                if pr:
                    w = put(w, ("peer", p), None)
            return [w]
        if n.k == "Call":
            if self.submits(n):
                return [put(self.shared(w), ("conc",), 1)]
            if n.obj is not None:
                if n.name == "unlock" and get(w, ("conc",)):
                    return [self.shared(w)]
                if n.name == "kill_all":
                    return [put(w, ("conc",), None)] if get(w, ("conc",)) != 2 else [w]
                p = fr.paths.of(n.obj)
                if n.name in ("emplace_back", "push_back", "emplace", "push", "push_front", "emplace_front", "insert"):
                    z = get(w, ("size", p))
                    if z is not None and n.name in ("emplace_back", "push_back"):
                        w = put(w, ("size", p), self.store((z[0] + 1, z[1] + 1 if z[1] < INF else INF)))
                    elif z is not None:
                        w = put(w, ("size", p), self.store((z[0], INF)))
                    if p[0] == "this" and len(p) == 2:
                        for a in n.args():
                            for x in a.walk():
                                if x.k in ("Ref", "Member") and integral(x.t) and self.peer(fr, x, w) == "W":
                                    if self.queue_member(p):
                                        return [put(put(w, ("idle", p), 1), ("owed",), None)]
                    return [w]
                if n.name == "clear":
                    w = put(w, ("size", p), (0, 0) if get(w, ("size", p)) is not None or self.hot(fr, p) else None)
                    return [put(w, ("idle", p), None)]
                if n.name in ("wait", "wait_for", "wait_until") and "condition_variable" in n.obj.t:
                    w = frozenset((k, v) for k, v in w if k[0] != "T")
                    w = frozenset((k, v) for k, v in w if not (k[0] == "size" and k[1][0] == "this"))
                    lam = strip(n.args()[-1]) if n.args() else None
                    for e in self.predicate(lam):
                        ws = self.refine(fr, e, True, w)
                        if ws:
                            w = ws[0]
                    return [w]
                if n.name in ("resize",) and n.args():
                    return [put(w, ("size", p), self.store(self.ev(fr, n.args()[0], w)))]
            if n.op == "++" and n.args():
                return [w]
        return [w]

    def queue_member(self, p):
        """a container of idle workers: its front is taken somewhere"""
        k = ("qm", p)
        if k not in self.memo:
            self.memo[k] = any(self.fronted_name(v.init) == p[-1] for f in self.P.fns.values() if self.relevant(f) for n in f.walk() if n.k == "Decl" for v in n.vars if v.init is not None)
        return self.memo[k]

    def fronted_name(self, e):
        e = strip(e)
        while e is not None and e.k in ("Construct", "Cast") and len(e.args() or e.c) == 1:
            e = strip((e.args() or e.c)[0])
        if e is not None and e.k == "Call" and e.obj is not None and e.name in ("front", "top", "back") and strip(e.obj).k == "Member":
            return strip(e.obj).name
        return None

    def fronted(self, fr, e):
        nm = self.fronted_name(e)
        if nm is None:
            return None
        e = strip(e)
        while e.k in ("Construct", "Cast"):
            e = strip((e.args() or e.c)[0])
        return fr.paths.of(e.obj)

    def predicate(self, lam):
        while lam is not None and lam.k in ("Construct", "Cast") and (lam.args() or lam.c):
            lam = strip((lam.args() or lam.c)[0])
        if lam is None or lam.k != "Lambda":
            return []
        out = []
        for g in self.P.lams.get(lam.d.get("lam"), ()) or ():
            for n in g.walk():
                if n.k == "Return" and n.c:
                    out.append(n.c[0])
            break
        return out

    def waits_on(self, n):
        """names of the members a wait's predicate reads"""
        if n.k != "Call" or n.obj is None or n.name not in ("wait", "wait_for", "wait_until") or "condition_variable" not in n.obj.t or not n.args():
            return set()
        return {x.name for e in self.predicate(strip(n.args()[-1])) for x in e.walk() if x.k == "Member"}

    # -- exploration
    def start(self):
        fr, w = self.frame(self.seq[0], None, ("seq", 0), None, None, self.world)
        return (fr, fr.fn.cfg.entry, 0, w)

    def submits(self, n):
        """does a call start a task of another thread?"""
        if n.k != "Call":
            return False
        if n.name in ("run_task", "run_priority_task"):
            return True
        m = self.memo.get("sub")
        if m is None:
            m = set()
            for f in self.P.fns.values():
                if f.raw.get("body") is not None and any(x.k == "Call" and x.name in ("run_task", "run_priority_task") for x in f.walk()):
                    m.add(f.u)
            callers, todo = self.P.callers(), list(m)
            while todo:
                for f, _ in callers.get(todo.pop(), ()):
                    if f.u not in m:
                        m.add(f.u)
                        todo.append(f.u)
            self.memo["sub"] = m
        g = self.P.callee(n)
        return g is not None and g.u in m

    def shared(self, w):
        """forget what other threads may change"""
        return frozenset((k, v) for k, v in w if not (k[0] in ("v", "v0", "size") and isinstance(k[1], tuple) and k[1][0] == "this" and k[1][-1] not in self.consts))

    def scope(self, fr, n, w):
        """forget what is no longer in scope"""
        anc = {n.id} | {a.id for a in n.ancestors()}
        live = set()
        x, node_anc = fr, anc
        while x is not None:
            live.add(x.fn.u)
            x = x.up
        out = []
        for k, v in w:
            p = k[1] if isinstance(k, tuple) and len(k) == 2 else None
            if k[0] in ("v", "v0", "size", "peer", "rank", "lin", "tag", "src", "msg", "tagv", "dt") and isinstance(p, tuple) and p and p[0] == "L":
                own = self.owner(p[1])
                if own is not None:
                    f, comp = own
                    if f not in live:
                        continue
                    if f == fr.fn.u and comp is not None and comp not in anc:
                        continue
            out.append((k, v))
        return frozenset(out)

    def owner(self, d):
        m = self.memo.get("owners")
        if m is None:
            m = {}
            for f in self.P.fns.values():
                if not self.relevant(f):
                    continue
                for n in f.walk():
                    if n.k == "Decl":
                        c = None
                        for a in n.ancestors():
                            if a.k in ("Compound", "For", "ForRange", "While", "If", "Switch"):
                                c = a.id
                                break
                        for v in n.vars:
                            m[v.d] = (f.u, c)
                for pv in f.params:
                    m[pv.d] = (f.u, None)
            self.memo["owners"] = m
        return m.get(d)

    def closure(self, cfgn):
        """event configurations reached without a message; 'end' for termination"""
        r = self.memo.get(("c", cfgn))
        if r is not None:
            return r
        out, seen, todo = [], {cfgn}, [cfgn]
        n_ = 0
        while todo:
            c = todo.pop()
            n_ += 1
            if n_ > 60000:
                raise TooLarge("the protocol of the %s has too many local configurations" % self.name)
            for kind, y in self.step(c):
                if kind == "ev":
                    out.append(y)
                elif kind == "end":
                    out.append(None)
                elif y not in seen:
                    seen.add(y)
                    todo.append(y)
        r = frozenset(out)
        self.memo[("c", cfgn)] = r
        return r

    def step(self, c):
        fr, b, i, w = c
        B = fr.fn.cfg.blocks[b]
        els = self.elements(fr.fn, B)
        if i < len(els):
            n = els[i]
            nx = (fr, b, i + 1)
            if n.k == "Call" and n.name in EVENTS:
                return [("ev", (fr, b, i, self.scope(fr, n, self.shared(w) if get(w, ("conc",)) else w)))]
            if is_exit(n):
                return []
            if n.k == "Call" and n.name in OTHER:
                return [("go", nx + (self.other(fr, n, w),))]
            g = self.callee(n)
            if g is not None and not (fr.frag and g.u in self.fragskip):
                x = fr
                while x is not None:
                    if x.fn.u == g.u:
                        return [("go", nx + (w,))]
                    x = x.up
                f2, w2 = self.frame(g, fr, (b, i), n, fr.frag, w)
                return [("go", (f2, g.cfg.entry, 0, w2))]
            out = []
            for w2 in self.local(fr, n, w):
                if self.insert is not None and not fr.frag and self.insert[0](self, n):
                    f2, w3 = self.frame(self.insert[1], fr, (b, i), None, True, w2)
                    out.append(("go", (f2, f2.fn.cfg.entry, 0, w3)))
                out.append(("go", nx + (w2,)))
            return out
        if b == fr.fn.cfg.exit:
            if fr.up is None:
                k = fr.ret[1] + 1
                if k >= len(self.seq):
                    return [("end", None)]
                w = frozenset((k2, v) for k2, v in w if k2[0] in ("idle", "conc", "owed"))
                f2, w = self.frame(self.seq[k], None, ("seq", k), None, None, w)
                return [("go", (f2, f2.fn.cfg.entry, 0, w))]
            rb, ri = fr.ret
            return [("go", (fr.up, rb, ri + 1, w))]
        out = []
        cond = fr.fn.cfg.cond(B)
        if B.tk == "SwitchStmt":
            test = strip(fr.fn.cfg.test(B))
            succ = [s for s in B.s if s is not None]
            tagp = None
            if test is not None and (test.k == "Member" and test.name == "MPI_TAG" or test.k == "Ref" and get(w, ("tagv", fr.paths.of(test)))):
                tagp = self.tag(fr, test, w)
            labels = []
            for s in succ:
                lb = fr.fn.cfg.blocks[s].lb
                ln = fr.fn.nodes.get(lb) if lb is not None else None
                labels.append((s, ln))
            if tagp is not None:
                hit = [s for s, ln in labels if ln is not None and ln.k == "Case" and ln.c and self.tag(fr, ln.c[0], w) == tagp]
                succ = hit or [s for s, ln in labels if ln is None or ln.k != "Case"]
            return [("go", (fr, s, 0, w)) for s in succ]
        for k, s in enumerate(B.s):
            if s is None:
                continue
            if cond is not None and len(B.s) == 2:
                leaf, neg = leaf_cond(cond)
                for w2 in self.refine(fr, leaf, (k == 0) != neg, w):
                    out.append(("go", (fr, s, 0, w2)))
            else:
                out.append(("go", (fr, s, 0, w)))
        return out

    def other(self, fr, n, w):
        a = n.args()
        if n.name == "MPI_Get_count" and len(a) == 3:
            m = get(w, ("msg", fr.paths.of(target(a[0]))))
            x = target(a[2])
            if m is not None:
                d = self.dt(fr, a[1], w)
                if m[0] is not None and d != m[0]:
                    self.bads[("count", n.id)] = ("exchange", "%s.count" % short(fr.fn), n.loc(), "%s counts a message of %s in units of %s" % (short(fr.fn), m[0], d))
                w = put(w, ("v", fr.paths.of(x)), self.store(m[1]))
            else:
                w = put(w, ("v", fr.paths.of(x)), (0, INF))
        return w

    def node(self, c):
        return self.elements(c[0].fn, c[0].fn.cfg.blocks[c[1]])[c[2]]

    def after(self, c, w):
        return (c[0], c[1], c[2] + 1, w)


def short(f):
    return (f.recn.split("::")[-1] + "::" if f.recn else "") + f.n


def dst_key(fr, e):
    """the object a buffer argument denotes: ('v', path) for a scalar, ('v0', path) for the first element"""
    x = target(e)
    if x is None or x.cv is not None:
        return None
    if x.k == "Sub" or x.k == "Call" and x.op == "[]" or x.k == "Call" and x.name in ("data", "front"):
        a = x.args() if x.k == "Call" and x.op == "[]" else x.c
        p = fr.paths.of(x.obj) if x.k == "Call" and x.obj is not None else fr.paths.of(a[0])
        return ("v0", p)
    return ("v", fr.paths.of(x))


class Product:
    """master x worker with the two channels between them"""

    def __init__(self, M, W):
        self.M, self.W = M, W
        self.stuck = {}
        self.typed = {}
        self.orphans = {}
        self.n = 0
        self.pairs = set()      # (send/receive or collective site pairs)

    def recvlike(self, n):
        return n.name in ("MPI_Recv", "MPI_Probe")

    def alts(self, proc, cfgs):
        """the choices of a process: single configurations for what it decides itself, one
        set for what it is ready to receive"""
        out, rec = [], []
        for c in cfgs:
            if c is None:
                out.append(("end",))
                continue
            n = proc.node(c)
            if self.recvlike(n) or proc is self.W and n.name in COLL:
                rec.append(c)
            else:
                out.append(("one", c))
        if rec:
            out.append(("set", frozenset(rec)))
        return out

    def next(self, proc, cs):
        """alternatives after the steps that lead to the configurations cs"""
        s = set()
        for c in cs:
            s |= proc.closure(c)
        return self.alts(proc, s)

    def run(self):
        init = []
        for m in self.next(self.M, [self.M.start()]):
            for w in self.next(self.W, [self.W.start()]):
                init.append((m, w, (), ()))
        seen = set(init)
        todo = deque(init)
        while todo:
            st = todo.popleft()
            self.n += 1
            if self.n > 600000:
                raise TooLarge("the product of master and worker is too large")
            succ = self.succ(st)
            if succ is None:
                continue
            if not succ:
                self.report(st)
            for x in succ:
                if x not in seen:
                    seen.add(x)
                    todo.append(x)

    def show(self, proc, a):
        if a[0] == "end":
            return "the %s has finished" % proc.name
        cs = [a[1]] if a[0] in ("one", "sent") else sorted(a[1], key=lambda c: self.site(proc, c))
        return "the %s at " % proc.name + " / ".join(sorted({"%s (%s)" % (self.what(proc, c), proc.node(c).loc()) for c in cs}))

    def what(self, proc, c):
        n = proc.node(c)
        fr, w = c[0], c[3]
        s = n.name
        a = n.args()
        if n.name in SENDS or n.name == "MPI_Recv":
            s += " " + str(proc.tag(fr, a[4], w))
        elif n.name == "MPI_Bcast":
            s += " " + proc.dt(fr, a[2], w)
        return s

    def site(self, proc, c):
        return proc.node(c).loc()

    def report(self, st):
        m, w, q, r = st
        if m[0] == "end" and w[0] == "end":
            if q or r:
                x = (q + r)[0]
                self.orphans.setdefault(x[0], x)
            return
        key = (self.show(self.M, m), self.show(self.W, w))
        self.stuck.setdefault(key, (st, ", ".join(str(x[0]) for x in q), ", ".join(str(x[0]) for x in r)))

    def succ(self, st):
        m, w, q, r = st
        if m[0] == "end" and w[0] == "end":
            return None if not q and not r else []
        out = []
        for a, b in self.moves(self.M, m, q, r, "W"):
            for x in a:
                out.append((x, w) + b)
        for a, b in self.moves(self.W, w, r, q, "M"):
            for x in a:
                out.append((m, x) + (b[1], b[0]))
        out += self.joint(m, w, q, r)
        return out

    def moves(self, proc, a, mine, other, peer):
        """steps of one process: yields (alternatives, (own outgoing queue, other queue))"""
        if a[0] == "end":
            return
        if a[0] == "sent":
            c = a[1]
            if not any(x[4] == ("send",) for x in mine):
                yield self.next(proc, [proc.after(c, c[3])]), (mine, other)
            return
        if a[0] == "one":
            c = a[1]
            n = proc.node(c)
            fr, w = c[0], c[3]
            g = n.args()
            if n.name in SENDS:
                pr = proc.peer(fr, g[3], w)
                if pr in ("other",):
                    yield self.next(proc, [proc.after(c, w)]), (mine, other)
                    return
                if pr is None:
                    proc.notes.add("exchange: cannot tell whom %s (%s) sends to" % (short(fr.fn), n.loc()))
                if pr is not None and pr != peer:
                    proc.bads[("peer", n.id)] = ("exchange", "%s.peer" % short(fr.fn), n.loc(), "%s sends to the wrong side" % short(fr.fn))
                tag = proc.tag(fr, g[4], w)
                cnt = proc.ev(fr, g[1], w)
                k = dst_key(fr, g[0])
                if pr == peer and get(w, ("owed",)):
                    w = put(w, ("owed",), None)
                    c = (c[0], c[1], c[2], w)
                val = TOP
                if k is not None:
                    val = get(w, k) or (proc.ev(fr, target(g[0]), w) if k[0] == "v" else TOP)
                if k is not None and val[0] < 0 and "64" in proc.dt(fr, g[2], w):
                    val = (0, val[1])
                req = ("send",)
                if n.name in ("MPI_Isend", "MPI_Issend"):
                    req = self.request(fr, g[6])
                item = (tag, proc.dt(fr, g[2], w), clamp(cnt), clamp(val), req, n.loc())
                if len(mine) > 5:
                    self.stuck.setdefault(("more and more messages", n.loc()), (None, "", ""))
                    return
                nm = mine + (item,)
                if req == ("send",):
                    yield [("sent", c)], (nm, other)
                else:
                    yield self.next(proc, [proc.after(c, w)]), (nm, other)
                return
            if n.name in ("MPI_Wait", "MPI_Waitall"):
                root = self.request(fr, g[0] if n.name == "MPI_Wait" else g[1])
                if not any(x[4] == root for x in mine):
                    yield self.next(proc, [proc.after(c, w)]), (mine, other)
                return
            if n.name == "MPI_Iprobe":
                if get(w, ("owed",)):
                    proc.bads[("owed", n.id)] = ("exchange", "%s.answer" % short(fr.fn), get(w, ("owed",)), "%s goes on without answering the worker whose results it has taken, which neither gets values nor counts as idle" % short(fr.fn))
                    w = put(w, ("owed",), None)
                fl = target(g[3])
                p = fr.paths.of(fl)
                w0 = frozenset((k, v) for k, v in w if k[0] != "T")
                yield self.next(proc, [proc.after(c, put(w0, ("v", p), (0, 0)))]), (mine, other)
                it = self.match(other, proc.tag(fr, g[1], w))
                if it is not None:
                    w1 = self.status(proc, fr, g[4], put(w0, ("v", p), (1, 1)), it, peer)
                    yield self.next(proc, [proc.after(c, w1)]), (mine, other)
                return
            return
        # ready to receive
        nxt, key = [], None
        groups = {}
        for c in a[1]:
            n = proc.node(c)
            fr, w = c[0], c[3]
            g = n.args()
            if n.name == "MPI_Probe":
                it = self.match(other, proc.tag(fr, g[1], w))
                if it is None:
                    continue
                groups.setdefault(("probe",), []).append(proc.after(c, self.status(proc, fr, g[3], w, it, peer)))
            elif n.name == "MPI_Recv":
                src = proc.peer(fr, g[3], w)
                if src == "other":
                    groups.setdefault(("probe",), []).append(proc.after(c, w))
                    continue
                t = proc.tag(fr, g[4], w)
                it = self.match(other, t)
                if it is None:
                    continue
                self.pairs.add((it[5], n.loc()))
                d = proc.dt(fr, g[2], w)
                if d != it[1]:
                    self.typed.setdefault((it[5], n.loc()), "%s: %s is sent at %s and received as %s" % (short(fr.fn), it[1], it[5], d))
                cnt = proc.ev(fr, g[1], w)
                if cnt[1] < it[2][0] or cnt[0] == cnt[1] and it[2][0] == it[2][1] and cnt != it[2]:
                    self.typed.setdefault((it[5], n.loc()), "%s: %s elements are sent at %s and %s are received" % (short(fr.fn), it[2][0] if it[2][0] == it[2][1] else "at least %d" % it[2][0], it[5], cnt[1]))
                w1 = w
                k = dst_key(fr, g[0])
                if k is not None:
                    w1 = put(w1, k, proc.store(it[3]) if it[2] == (1, 1) or k[0] == "v0" else None)
                    if k[0] == "v0" and get(w1, ("size", k[1])) is not None:
                        w1 = put(w1, ("size", k[1]), None)
                if len(g) > 6 and strip(g[6]).cv is None:
                    w1 = self.status(proc, fr, g[6], w1, it, peer)
                if proc is self.M:
                    w1 = put(w1, ("owed",), n.loc() if it[2][0] > 1 else None)
                no = list(other)
                no.remove(it)
                groups.setdefault(("recv", tuple(no)), []).append(proc.after(c, w1))
        for k, cs in groups.items():
            yield self.next(proc, cs), (mine, other if k[0] == "probe" else k[1])

    def request(self, fr, e):
        x = target(e)
        if x is not None and (x.k == "Sub" or x.k == "Call" and x.op == "[]"):
            x = (x.args() if x.k == "Call" else x.c)[0]
        return ("req",) + tuple(fr.paths.of(x))

    def match(self, queue, tag):
        for x in queue:
            if tag in ("any", None) or x[0] == tag or x[0] is None:
                return x
        return None

    def status(self, proc, fr, e, w, it, peer):
        x = target(e)
        if x is None or x.cv is not None:
            return w
        p = fr.paths.of(x)
        w = put(w, ("tag", p), it[0])
        w = put(w, ("src", p), peer)
        return put(w, ("msg", p), (it[1], it[2]))

    def joint(self, m, w, q, r):
        """broadcasts and barriers: both sides must be at the same one"""
        if m[0] != "one" or w[0] not in ("set", "one"):
            return []
        c = m[1]
        n = self.M.node(c)
        if n.name not in COLL:
            return []
        fr, mw = c[0], c[3]
        g = n.args()
        hits = []
        for d in (w[1] if w[0] == "set" else [w[1]]):
            k = self.W.node(d)
            if k.name != n.name:
                continue
            h = k.args()
            if n.name == "MPI_Barrier":
                hits.append(self.W.after(d, d[3]))
                self.pairs.add((n.loc(), k.loc()))
                continue
            if self.M.peer(fr, g[3], mw) != "M" or self.W.peer(d[0], h[3], d[3]) != "M":
                if self.M.peer(fr, g[3], mw) != self.W.peer(d[0], h[3], d[3]):
                    continue
            if self.M.dt(fr, g[2], mw) != self.W.dt(d[0], h[2], d[3]):
                continue
            cm, cw = self.M.ev(fr, g[1], mw), self.W.ev(d[0], h[1], d[3])
            if meet(clamp(cm), clamp(cw)) is None:
                continue
            self.pairs.add((n.loc(), k.loc()))
            src = target(g[0])
            val = get(mw, dst_key(fr, g[0])) if dst_key(fr, g[0]) else None
            if val is None and src is not None and src.k == "Ref":
                val = clamp(self.M.ev(fr, src, mw))
            dk = dst_key(d[0], h[0])
            x = d[3]
            if dk is not None:
                x = put(x, dk, val if val != TOP and cm == (1, 1) else None)
            hits.append(self.W.after(d, x))
        if not hits:
            return []
        out = []
        for a in self.next(self.M, [self.M.after(c, mw)]):
            for b in self.next(self.W, hits):
                out.append((a, b, q, r))
        return out


# ---------------------------------------------------------------- roles
def direct(f):
    return [n for n in f.walk() if n.k == "Call" and n.name in EVENTS]


def reach(P, roots, stop=()):
    seen, st = set(), list(roots)
    while st:
        f = st.pop()
        if f.u in seen or f.u in stop:
            continue
        seen.add(f.u)
        for n in f.walk():
            if n.k in ("Call", "Construct"):
                g = P.callee(n)
                if g is not None and g.u not in seen:
                    st.append(g)
    return seen


def roles(P):
    """(set-up alternatives of the master, its communication loop, what it may do while the loop waits, entry of the worker)"""
    fns = [f for f in P.fns.values() if f.raw.get("body") is not None and primary(f) and not f.lam]
    ms = [f for f in fns if f.recn and f.recn.split("::")[-1] == "Reconstructor"]
    ws = [f for f in fns if f.recn and f.recn.split("::")[-1] == "MPIWorker"]
    loops = [f for f in ms if any(n.k == "Call" and n.name == "MPI_Iprobe" for n in f.walk())]
    setup = [f for f in ms if any(n.k == "Call" and n.name == "MPI_Comm_size" for n in f.walk())]
    entry = [f for f in ws if f.kind == "ctor" and not f.flag("implicit") and f.cfg is not None]
    if not loops or not setup or not entry:
        return None
    # climb from the polling helper to the function a task runs
    callers = P.callers()
    comm = loops[0]
    while True:
        up = [f for f, _ in callers.get(comm.u, ()) if primary(f) and not f.lam]
        if len(up) == 1 and up[0].recn == comm.recn and up[0].u not in reach(P, setup):
            comm = up[0]
        else:
            break
    st = setup[0]
    sc = reach(P, [st])
    cc = reach(P, [comm])
    ups = set()
    todo = [st.u]
    while todo:
        for f, _ in callers.get(todo.pop(), ()):
            if f.u not in ups and not f.lam and primary(f):
                ups.add(f.u)
                todo.append(f.u)
    ups.discard(st.u)
    alts = [st]
    frag = None
    # what precedes the loop besides the set-up
    for f in ms:
        if f.u in ups and f.u not in cc and any(n.name in ("MPI_Recv", "MPI_Send") for n in direct(f)):
            alts.append(f)
    rest = [f for f in ms if direct(f) and f.u not in sc and f.u not in cc and f not in alts]
    own = [f for f in rest if f.u not in {x for a in alts for x in reach(P, [a])}]
    if own:
        stop = {a.u for a in alts}
        cand = []
        for f in ms:
            if f.u in stop or f.u in cc:
                continue
            r = reach(P, [f], stop)
            if all(x.u in r for x in own):
                cand.append((f, r))
        low = [f for f, r in cand if not any(g.u in r and g.u != f.u for g, _ in cand)]
        frag = low[0] if low else own[0]
    return alts, comm, frag, entry


def upset(P, fns):
    out = {f.u for f in fns}
    todo = list(out)
    callers = P.callers()
    while todo:
        for f, _ in callers.get(todo.pop(), ()):
            if f.u not in out and not f.lam:
                out.add(f.u)
                todo.append(f.u)
    return out


def initial(P, recn):
    """what the members of an object are when its constructor's body starts"""
    w = frozenset()
    for r in P.recs.values():
        if r.n.split("<")[0].split("::")[-1] == recn:
            for f in r.fields:
                i = f.get("init")
                p = ("this", f["n"])
                if i is not None and i.get("cv") is not None and integral(f["t"]):
                    v = int(i["cv"])
                    w = put(w, ("v", p), clamp((v, v)))
                elif re.match(r"^std::(vector|deque|list|queue|string|unordered_\w+|map|set)", f["t"]) and (i is None or not i.get("c")):
                    w = put(w, ("size", p), (0, 0))
    return w


def run(ctx):
    P = load(("flintmpi",))["flintmpi"]
    P.link()
    ctx.rule("exchange", "every message of the master meets a receive of the worker with the same tag and datatype and vice versa, every broadcast and barrier the same one on the other side, and nobody is left waiting")
    ctx.rule("buffer", "the datatype, count and buffer of every call fit together")
    ctx.rule("request", "every non-blocking send is completed before its buffer or request is written, reused or destroyed")
    ctx.rule("layout", "the elements of a package are read in the positions they are written in")
    ctx.rule("prime", "the field a worker changes to is the one the master has sent")
    R = roles(P)
    if R is None:
        raise AnalysisError("cannot find the communication of master and worker")
    alts, comm, frag, entry = R
    npairs = set()
    nst = 0
    large = False
    for a in alts:
        e = entry[0]
        ins = None
        if frag is not None:
            ins = (lambda pr, n: "new_jobs" in pr.waits_on(n), frag)
        # while the fragment runs, the set-up is over
        M = Proc(P, "master", [a, comm], (), ins, frozenset({(("conc",), 2)}))
        M.fragskip = upset(P, alts)
        W = Proc(P, "worker", [e], (), None, initial(P, e.recn))
        pr = Product(M, W)
        try:
            pr.run()
        except TooLarge as e:
            ctx.notes.append("exchange: %s; only the states reached before were decided" % e)
            large = True
        nst += pr.n
        npairs |= pr.pairs
        for key, (st, q, r) in sorted(pr.stuck.items(), key=lambda x: x[0])[:6]:
            ctx.bad("exchange", "%s.stuck" % short(a), key[1].split("(")[-1].rstrip(")") if "(" in key[1] else key[1],
                    "the exchange that begins with %s gets stuck: %s; %s%s%s" % (short(a), key[0], key[1], "; on its way to the worker: " + q if q else "", "; on its way to the master: " + r if r else ""))
        for k, msg in sorted(pr.typed.items()):
            ctx.bad("exchange", "%s.type" % short(a), k[1], msg)
        for k, it in sorted(pr.orphans.items(), key=str):
            ctx.bad("exchange", "%s.orphan" % short(a), it[5], "a %s message sent at %s is never received" % (it[0], it[5]))
        for p in (M, W):
            for b in p.bads.values():
                ctx.bad(*b)
            for x in sorted(p.notes):
                ctx.notes.append(x)
    for a, b in sorted(npairs):
        ctx.ok("exchange", "%s <-> %s" % (a, b))
    if not large and not any(v["rule"] == "exchange" for v in ctx.viol.values()):
        ctx.need("exchange", len(npairs), "matching calls of master and worker")
    ctx.notes.append("exchange: %d joint states, set-ups %s, scan %s" % (nst, ", ".join(short(a) for a in alts), short(frag) if frag else "-"))
    ctx.assume.append("one worker stands for all; sends are synchronous; factor texts are non-empty and fit into one broadcast")
    # every call is reached by the exploration
    seen = {x for p in npairs for x in p}
    for f in P.fns.values():
        if not primary(f) or not f.recn or f.recn.split("::")[-1] not in ("Reconstructor", "MPIWorker"):
            continue
        for n in direct(f):
            if n.name in ("MPI_Recv", "MPI_Bcast", "MPI_Barrier", "MPI_Send", "MPI_Isend") and n.loc() not in seen:
                ctx.notes.append("exchange: %s in %s (%s) takes no part in any exchange" % (n.name, short(f), n.loc()))
    ctx.c13pairs = npairs
    c13b.buffers(ctx, P)
    c13b.requests(ctx, P)
    c13b.layout(ctx, P)
    c13b.primes(ctx, P)

