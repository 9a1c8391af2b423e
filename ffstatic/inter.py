"""Interprocedural forward analysis by inlining (context-sensitive, memoised).

A client supplies the abstract state (hashable) and the transfer of events; the
engine walks the clang CFGs, enters every called repository function that can
matter (directly or through its callees) with parameters bound to the caller's
access paths, and joins at merges. Helper extraction, reordering and loop
rewriting therefore do not change what a client sees."""
from collections import deque
from .core import *
from .core import strip


def leaf_cond(c):
    """the sub-condition a block's branch actually tests, and whether it is negated"""
    neg = False
    c = strip(c)
    while c is not None:
        if c.k == "Un" and c.op == "!":
            neg = not neg
            c = strip(c.c[0])
        elif c.k == "Call" and c.op == "!" and len(c.args()) == 1:
            neg = not neg
            c = strip(c.args()[0])
        elif c.k == "Bin" and c.op in ("&&", "||"):
            # the short-circuited paths have branches of their own (core.CFG._split)
            c = strip(c.c[1])
        elif c.k == "Bin" and c.op in ("==", "!=") and strip(c.c[1]) is not None and strip(c.c[1]).k == "Bool":
            v = bool(strip(c.c[1]).cv)
            if (c.op == "==") != v:
                neg = not neg
            c = strip(c.c[0])
        else:
            break
    return c, neg


def facts(leaf, val):
    """the tests that are decided when a condition has a value: [(test, value)]"""
    leaf = strip(leaf)
    if leaf is None:
        return []
    if leaf.k == "Un" and leaf.op == "!":
        return facts(leaf.c[0], not val)
    if leaf.k == "Bin" and leaf.op in ("&&", "||"):
        if (leaf.op == "&&") == val:
            return facts(leaf.c[0], val) + facts(leaf.c[1], val)
        return []
    return [(leaf, val)]


def by_ref(t):
    t = t.strip()
    return t.endswith("&") or t.endswith("*") or t.endswith("*const") or t.endswith("* const") or "iterator" in t


class FPaths(Paths):
    """Paths whose lookups fall back to the enclosing function of a lambda"""

    def __init__(self, fn, env=None, outer=None):
        Paths.__init__(self, fn, env)
        self.outer = outer
        if outer is not None:
            self.decls = dict(outer.decls)
            self.decls.update(fn._decls)
            for k, v in outer.env.items():
                self.env.setdefault(k, v)


class Frame:
    __slots__ = ("fn", "paths", "up", "call", "depth")

    def __init__(self, fn, paths, up=None, call=None):
        self.fn = fn
        self.paths = paths
        self.up = up
        self.call = call
        self.depth = 0 if up is None else up.depth + 1

    def of(self, n):
        return self.paths.of(n)

    def chain(self):
        out = []
        f = self
        while f is not None:
            out.append(f.fn.q.split("::")[-1])
            f = f.up
        return " <- ".join(out)


class Inter:
    maxdepth = 10

    def __init__(self, P):
        self.P = P
        P.link()
        self.memo = {}
        self._els = {}
        self._rel = None
        self.assigned = {}

    # ---- to override
    def is_event(self, n, fn):
        """does this node matter (decides which callees are entered)"""
        return False

    def event(self, fr, kind, n, st):
        return st

    def edge(self, fr, B, i, st):
        return st

    def join(self, a, b):
        return a | b

    def enter(self, fr, call, g, st):
        return st

    def leave(self, fr, call, g, before, after):
        return after

    def skip(self, g):
        return False

    # ---- engine
    def relevant(self, g):
        if self._rel is None:
            rel = set()
            for f in self.P.fns.values():
                if f.raw.get("body") is not None and any(self.is_event(n, f) for n in f.walk()):
                    rel.add(f.u)
            callers = self.P.callers()
            st = list(rel)
            while st:
                u = st.pop()
                for f, _ in callers.get(u, ()):
                    if f.u not in rel:
                        rel.add(f.u)
                        st.append(f.u)
            self._rel = rel
        return g.u in self._rel

    def value_param_stable(self, g, d):
        k = (g.u, d)
        if k not in self.assigned:
            w = False
            for n in g.walk():
                t = None
                if n.k == "Assign":
                    t = strip(n.c[0])
                elif n.k == "Un" and n.op in ("++", "--", "&"):
                    t = strip(n.c[0])
                elif n.k == "Call" and n.op and (n.op in ("++", "--", "=") or (n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">="))) and n.args():
                    t = strip(n.args()[0])
                if t is not None and t.k == "Ref" and t.d["d"] == d:
                    w = True
                    break
            self.assigned[k] = not w
        return self.assigned[k]

    def bind(self, fr, call, g):
        env = {}
        if g.lam:
            outer = fr.paths
            # walk up to the frame that owns the lambda
            x = fr
            while x is not None:
                if g.parent_fn is not None and x.fn.u == g.parent_fn.u:
                    outer = x.paths
                    break
                x = x.up
            args = call.args()
            if call.op == "()" and args:
                args = args[1:]
        else:
            outer = None
            args = call.args()
            if call.k == "Call" and call.obj is not None:
                env["this"] = fr.of(call.obj)
            elif call.k == "Call" and g.kind == "method" and call.op and args and not g.flag("static"):
                env["this"] = fr.of(args[0])
                args = args[1:]
        for pv, a in zip(g.params, args):
            if by_ref(pv.t) or self.value_param_stable(g, pv.d):
                p = fr.of(a)
                if p[0] != "?":
                    env[pv.d] = p
        return FPaths(g, env, outer)

    def call_fn(self, fr, call, g, st):
        if g.cfg is None or fr.depth >= self.maxdepth:
            return st
        x = fr
        while x is not None:
            if x.fn.u == g.u:
                return st
            x = x.up
        sub = Frame(g, self.bind(fr, call, g), fr, call)
        return self.run_frame(sub, st)

    def run_frame(self, fr, st):
        key = (fr.fn.u, tuple(sorted(((k, v) for k, v in fr.paths.env.items()), key=repr)), st)
        if key in self.memo:
            return self.memo[key]
        inn = forward(fr.fn, st, lambda k, n, s: self.transfer(fr, k, n, s), self.join, lambda B, i, s: self.edge(fr, B, i, s), lambda B: self.filtered(fr.fn, B))
        ex = inn.get(fr.fn.cfg.exit)
        self.memo[key] = ex
        return ex

    def wants(self, kind, n, fn):
        """elements event() can react to (others are dropped before the analysis)"""
        return True

    def filtered(self, fn, B):
        k = (fn.u, B.id)
        r = self._els.get(k)
        if r is None:
            r = []
            for kind, n in fn.cfg.els(B):
                if kind == "S":
                    if not (is_exit(n) or self.wants(kind, n, fn)):
                        g = self.P.callee(n) if n.k in ("Call", "Construct") else None
                        if g is None or self.skip(g) or not self.relevant(g):
                            continue
                elif not self.wants(kind, n, fn):
                    continue
                r.append((kind, n))
            self._els[k] = r
        return r

    def transfer(self, fr, kind, n, st):
        if kind == "S":
            if n.k in ("Call", "Construct"):
                g = self.P.callee(n)
                if g is not None and not self.skip(g) and self.relevant(g):
                    r = self.event(fr, "call", n, st)
                    if r is None:
                        return None
                    s2 = self.call_fn(fr, n, g, self.enter(fr, n, g, r))
                    if s2 is None:
                        return None
                    return self.leave(fr, n, g, r, s2)
            if is_exit(n):
                self.event(fr, "exit", n, st)
                return None
        return self.event(fr, kind, n, st)

    def run(self, fn, st, env=None):
        fr = Frame(fn, FPaths(fn, dict(env or {})))
        return self.run_frame(fr, st)
