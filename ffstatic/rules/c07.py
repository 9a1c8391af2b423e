"""C07: a state file is only ever replaced by a complete one.

File effects (open for writing, write, close, rename, remove) are followed
through every function of the library, with the file names as patterns and the
streams as typestates. A name below ff_save/states is the last complete state
of a function: it may be replaced by the rename of a file that was written and
closed before, moved to another such name, and nothing else."""
TECHNIQUE = "interprocedural typestate dataflow (open/write/close/rename/remove) over the clang CFG with file names as string patterns"
NOTE = ("Assumes rename replaces a file atomically and that a closed stream is on the disk; errors of the file system itself (disk full) are not modelled. "
        "Restricted to the state files of the functions; anchor points, shift and probes are separate files (C06).")

from ..core import *
from ..core import strip
from ..inter import *
from .c23 import primary, short, written
import re

STATES = "ff_save/states"
WR = ("ofstream", "ogzstream", "fstream", "basic_ofstream")


def is_text(t):
    t = t.replace("const", "").strip().rstrip("&").strip()
    return "basic_string<" in t or t in ("std::string", "string") or t.startswith("char") or "char[" in t


def is_out(t):
    t = unconst(t).rstrip("&* ").strip()
    return any(t.endswith(x) or t.startswith("std::" + x) or (x + "<") in t for x in WR) and "ifstream" not in t


class Files(Inter):
    maxdepth = 8

    def __init__(self, P, sink):
        Inter.__init__(self, P)
        self.sink = sink
        self.inl = set()
        self.stack = []
        self.rets = []

    def skip(self, g):
        # functions that handle files of their own are analysed by themselves
        return g.u not in self.inl and not g.lam

    # state: (must facts, may facts, strings) all frozensets; strings = {(depth, decl, items)}
    def join(self, a, b):
        ka = {(d, x) for d, x, _ in a[2]}
        kb = {(d, x) for d, x, _ in b[2]}
        return (a[0] & b[0], a[1] | b[1], a[2] | b[2])

    FX = {"rename", "remove", "unlink", "open", "close", "fopen", "fclose", "truncate", "remove_all"}

    def is_event(self, n, fn):
        if n.k == "Call" and n.name in ("rename", "remove", "unlink", "truncate", "fopen") and n.obj is None:
            return True
        if n.k == "Call" and n.name in ("open", "close") and n.obj is not None and is_out(n.obj.t):
            return True
        if n.k == "Decl":
            return any(is_out(v.t) and not v.t.rstrip().endswith("&") for v in n.vars)
        if n.k == "Call" and n.op == "<<" and n.args() and "gz" in n.args()[0].t:
            return True
        return False

    def wants(self, kind, n, fn):
        if kind != "S":
            return True
        if n.k == "Decl":
            return any(is_text(v.t) or is_out(v.t) for v in n.vars)
        if n.k == "Call" and n.op in ("=", "+=", "<<") and n.args():
            return True
        return self.is_event(n, fn) or (n.k == "Call" and n.name in ("append", "assign", "push_back") and n.obj is not None and is_text(n.obj.t)) or n.k in ("Assign", "Lambda", "Return")

    # ---- names
    def items(self, fr, e, st, depth=0):
        """set of item tuples"""
        e = strip(e)
        if e is None or depth > 25:
            return {("*",)}
        if e.k == "Str":
            v = e.d.get("v") or ""
            return {(lit(v),)}
        if e.k == "Char":
            return {(chr(int(e.d.get("v", 0))),)}
        if e.k == "Cond":
            return self.items(fr, e.c[1], st, depth + 1) | self.items(fr, e.c[2], st, depth + 1)
        if e.k == "Construct":
            a = [x for x in e.args() if x.k != "DefArg"]
            if is_text(e.t):
                return self.items(fr, a[0], st, depth + 1) if a else {()}
            return {("*",)}
        if e.k == "Call":
            a = e.args()
            if e.op == "+" and len(a) == 2:
                l, r = self.items(fr, a[0], st, depth + 1), self.items(fr, a[1], st, depth + 1)
                return {norm(x + y) for x in l for y in r} if len(l) * len(r) <= 16 else {("*",)}
            if e.name in ("c_str", "str", "data") and e.obj is not None and is_text(e.obj.t):
                return self.items(fr, e.obj, st, depth + 1)
            if e.name == "to_string" and a:
                return {(("v", text(fr, a[0])),)}
            if e.name == "move" and a:
                return self.items(fr, a[0], st, depth + 1)
            g = self.P.callee(e)
            if g is not None and is_text(g.ret) and g.raw.get("body") is not None and fr.depth < 6:
                return self.returned(fr, e, g, st)
        if e.k == "Ref":
            d = e.d.get("d")
            got = {x for k, dd, x in st[2] if dd == d}
            if got:
                return got
            v = fr.paths.decls.get(d)
            if v is not None and v.init is not None and is_text(v.t):
                return self.items(fr, v.init, st, depth + 2)
        return {(("v", text(fr, e)),)}

    def returned(self, fr, e, g, st):
        """what a function that builds a name returns"""
        if g.cfg is None or any(f is g for f in (self.stack or [])):
            return {("*",)}
        sub = Frame(g, self.bind(fr, e, g), fr, e)
        s2 = self.enter(fr, e, g, st)
        self.stack = (self.stack or []) + [g]
        self.rets.append(set())
        forward(g, s2, lambda k, n, s: self.event(sub, k, n, s), self.join, lambda B, i, s: self.edge(sub, B, i, s), lambda B: self.filtered(g, B))
        self.stack = self.stack[:-1]
        return self.rets.pop() or {("*",)}

    def setstr(self, fr, st, d, vals):
        s = frozenset(x for x in st[2] if x[1] != d)
        if len(vals) > 12:
            vals = {("*",)}
        return (st[0], st[1], s | frozenset((fr.depth, d, v) for v in vals))

    def enter(self, fr, call, g, st):
        args = call.args()
        if call.op == "()" and args:
            args = args[1:]
        st2 = st
        for pv, a in zip(g.params, args):
            if is_text(pv.t):
                vals = self.items(fr, a, st)
                s = frozenset(x for x in st2[2] if x[1] != pv.d)
                st2 = (st2[0], st2[1], s | frozenset((fr.depth + 1, pv.d, v) for v in vals))
        return st2

    def leave(self, fr, call, g, b, a):
        return (a[0], a[1], frozenset(x for x in a[2] if x[0] <= fr.depth))

    # ---- effects
    def key(self, fr, e):
        p = fr.of(e)
        return p

    def opened(self, fr, n, key, vals, st):
        must, may, s = st
        must = frozenset(x for x in must if not (x[0] == "S" and x[1] == key))
        may = frozenset(x for x in may if not (x[0] == "S" and x[1] == key))
        for v in vals:
            p = pattern(v)
            may |= {("O", v), ("S", key, v)}
            must = frozenset(x for x in must if not (x[0] in ("C",) and x[1] == v))
            self.sink("open", fr, n, (v,), (must, may))
        if len(vals) == 1:
            must |= {("S", key, next(iter(vals)))}
        must = frozenset(x for x in must if x != ("closed", key))
        return (must, may, s)

    def closed(self, fr, n, key, st):
        must, may, s = st
        for x in list(may):
            if x[0] == "S" and x[1] == key:
                v = x[2]
                if x in must:
                    must |= {("C", v)}
                    may = frozenset(y for y in may if y != ("O", v))
        return (must | {("closed", key)}, may, s)

    def event(self, fr, kind, n, st):
        if kind == "call":
            return st
        if kind != "S":
            # the end of a stream's scope closes it
            d = n if not isinstance(n, (list, tuple)) else (n[1] if len(n) > 1 else None)
            if isinstance(d, int):
                v = fr.paths.decls.get(d)
                if v is not None and is_out(v.t) and not v.t.rstrip().endswith("&"):
                    return self.closed(fr, n, ("L", d, v.n), st)
            return st
        if n.k == "Return":
            if self.stack and self.stack[-1] is fr.fn and n.c and n.c[0] is not None:
                self.rets[-1] |= self.items(fr, n.c[0], st)
            return st
        if n.k == "Decl":
            for v in n.vars:
                if is_text(v.t) and v.init is not None:
                    st = self.setstr(fr, st, v.d, self.items(fr, v.init, st))
                elif is_text(v.t):
                    st = self.setstr(fr, st, v.d, {()})
                elif is_out(v.t) and not v.t.rstrip().endswith("&"):
                    i = strip(v.init) if v.init is not None else None
                    if i is not None and i.k == "Construct":
                        a = [x for x in i.args() if x.k != "DefArg"]
                        if a and is_text(a[0].t):
                            st = self.opened(fr, n, ("L", v.d, v.n), self.items(fr, a[0], st), st)
            return st
        w = written(n)
        if w is not None:
            l = strip(w[0])
            if l is not None and l.k == "Ref" and is_text(l.t):
                return self.setstr(fr, st, l.d.get("d"), self.items(fr, w[1], st))
            return st
        if n.k == "Call" and (n.op == "+=" or n.name in ("append",)):
            ops = n.args() if n.op else [n.obj] + n.args()
            if len(ops) == 2 and ops[0] is not None:
                l = strip(ops[0])
                if l is not None and l.k == "Ref" and is_text(l.t):
                    a, b = self.items(fr, l, st), self.items(fr, ops[1], st)
                    return self.setstr(fr, st, l.d.get("d"), {norm(x + y) for x in a for y in b})
            return st
        if n.k == "Call" and n.name == "open" and n.obj is not None and is_out(n.obj.t) and n.args():
            return self.opened(fr, n, self.key(fr, n.obj), self.items(fr, n.args()[0], st), st)
        if n.k == "Call" and n.name == "close" and n.obj is not None and is_out(n.obj.t):
            return self.closed(fr, n, self.key(fr, n.obj), st)
        if n.k == "Call" and n.op == "<<" and n.args():
            x = n
            while x is not None and x.k == "Call" and x.op == "<<" and x.args():
                x = strip(x.args()[0])
            if x is not None and is_out(x.t):
                k = self.key(fr, x)
                if ("closed", k) in st[0]:
                    names = {y[2] for y in st[1] if y[0] == "S" and y[1] == k}
                    if names:
                        self.sink("late", fr, n, (sorted(names, key=repr)[0],), st[:2])
            return st
        if n.k == "Call" and n.obj is None and n.name == "rename" and len(n.args()) == 2:
            must, may, s = st
            for a in self.items(fr, n.args()[0], st):
                for b in self.items(fr, n.args()[1], st):
                    self.sink("rename", fr, n, (a, b), (must, may))
                    if is_state(b):
                        must |= {("R" if not is_state(a) else "M", b)}
                        if is_state(a):
                            must |= {("N", x[1]) for x in b if not isinstance(x, str) and "prime" in x[1]}
                        may |= {("R" if not is_state(a) else "M", b)}
            return (must, may, s)
        if n.k == "Call" and n.obj is None and n.name in ("remove", "unlink", "truncate", "fopen") and 1 <= len(n.args()) <= 2 and is_text(n.args()[0].t):
            for a in self.items(fr, n.args()[0], st):
                mode = ""
                if n.name == "fopen" and len(n.args()) > 1:
                    mode = "".join(x for i in self.items(fr, n.args()[1], st) for x in i if isinstance(x, str))
                    if mode.startswith("r"):
                        continue
                self.sink("open" if n.name in ("truncate", "fopen") else "remove", fr, n, (a,), st[:2])
            return st
        return st

    def edge(self, fr, B, i, st):
        c = fr.fn.cfg.cond(B)
        if c is None or len(B.s) != 2:
            return st
        leaf, neg = leaf_cond(c)
        val = (i == 0) ^ neg
        must = st[0]
        for l, v in facts(leaf, val):
            l = strip(l)
            if l is None:
                continue
            q = None
            if l.k == "Call" and l.name == "empty" and l.obj is not None and v:
                q = fr.of(l.obj)
            elif l.k == "Bin" and l.op in ("==", "!=") and (l.op == "==") == v:
                for a, b in ((l.c[0], l.c[1]), (l.c[1], l.c[0])):
                    a, b = strip(a), strip(b)
                    if a.k == "Call" and a.name in ("size", "length") and a.obj is not None and b.cv is not None and int(b.cv) == 0:
                        q = fr.of(a.obj)
            elif l.k == "Call" and l.op in ("==", "!=") and (l.op == "==") == v and len(l.args()) == 2:
                a, b = l.args()
                if strip(b).k == "Str" and not (strip(b).d.get("v") or ""):
                    q = fr.of(a)
            if l.k == "Bin" and l.op in ("==", "!=", ">", "<"):
                a, b, op = strip(l.c[0]), strip(l.c[1]), l.op
                if a.cv is not None and int(a.cv) == 0:
                    a, b, op = b, a, {">": "<", "<": ">"}.get(op, op)
                if b.cv is not None and int(b.cv) == 0 and fr.of(a)[0] == "this" and (op == "==") == v and (op != "<"):
                    must = must | {("N", text(fr, a))}
            if q is not None and q[0] != "?":
                must = must | {("E", q)}
        return (must, st[1], st[2])


def lit(v):
    if isinstance(v, str):
        return v
    return str(v)


def text(fr, e):
    """a name for a value in a file name, the same wherever it is written the same way"""
    e = strip(e)
    if e is None:
        return "?"
    p = fr.of(e)
    if p[0] in ("this", "S"):
        return ".".join(map(str, p))
    if e.cv is not None:
        return str(e.cv)
    if e.k == "Bin":
        return "(%s%s%s)" % (text(fr, e.c[0]), e.op, text(fr, e.c[1]))
    if p[0] == "L":
        return str(p[2]) + "".join("." + str(x) for x in p[3:])
    return e.k


def norm(t):
    out = []
    for x in t:
        if isinstance(x, str) and out and isinstance(out[-1], str) and x != "*" and out[-1] != "*":
            out[-1] += x
        else:
            out.append(x)
    return tuple(out)


def pattern(t):
    return "".join(x if isinstance(x, str) else "<%s>" % x[1] for x in t)


def head(t):
    return t[0] if t and isinstance(t[0], str) and t[0] != "*" else ""


def is_state(t):
    h = head(t)
    h = re.sub(r"/+", "/", h)
    if h.startswith("./"):
        h = h[2:]
    return h.startswith(STATES + "/") or h == STATES


def unknown(t):
    return not head(t)


def run(ctx):
    PP = load(("default", "flintmpi"))
    ctx.rule("inplace", "no state file is opened for writing under the name the resume looks for (except the very first one)")
    ctx.rule("complete", "a file that replaces a state was written and closed before")
    ctx.rule("kept", "no state is removed, moved away or overwritten by an older one")
    ctx.rule("own", "the temporary file belongs to the same function as the state it replaces")
    ctx.assume.append("rename replaces the target atomically; a closed stream has reached the file")
    tot = [0]
    seen = {}
    for cfg in ("default", "flintmpi"):
        P = PP[cfg]

        def sink(what, fr, n, names, facts):
            seen.setdefault((cfg, what, n.loc(), fr.fn.q), []).append((fr, n, names, facts))

        A = Files(P, sink)
        roots = [f for f in P.fns.values() if f.raw.get("body") is not None and not f.lam and f.q.startswith("firefly::") and primary(f)
                 and any(A.is_event(n, f) for n in f.walk())]
        roots = [f for f in roots if not f.file.endswith("gzstream.hpp")]
        # helpers that are handed names or streams, or only finish what others began, belong to their callers
        A.inl = {f.u for f in roots if any(is_text(pv.t) or is_out(pv.t) for pv in f.params) or helper(A, f)}
        todo = {f.u: f for f in roots}
        st = list(A.inl)
        while st:
            u = st.pop()
            for g, _ in P.callers().get(u, ()):
                if g.lam:
                    g = g.parent_fn or g
                if g.q.startswith("firefly::") and primary(g) and g.u not in todo:
                    todo[g.u] = g
        for u, f in sorted(todo.items()):
            if u in A.inl and P.callers().get(u):
                continue
            A.run(f, (frozenset(), frozenset(), frozenset()))
    for (cfg, what, loc, q), evs in sorted(seen.items(), key=repr):
        for fr, n, names, (must, may) in evs:
            ctx.c07P = PP[cfg]
            judge(ctx, tot, what, fr, n, names, must, may)
    ctx.need("complete", tot[0], "renames onto a state file")


class First(Files):
    """is the number known to be zero at the calls of a function"""

    def __init__(self, P, target):
        Files.__init__(self, P, lambda *a: None)
        self.target = target
        self.got = []

    def skip(self, g):
        return True

    def wants(self, kind, n, fn):
        return kind == "S" and n.k == "Call"

    def event(self, fr, kind, n, st):
        if kind in ("S", "call") and n.k == "Call" and self.P.callee(n) is not None and self.P.callee(n).u == self.target.u:
            self.got.append(st[0])
        return st


def first_field(P, f, nums):
    cs = P.callers().get(f.u, ())
    if not cs:
        return False
    for g in {g.u: g for g, _ in cs}.values():
        A = First(P, f)
        A.run(g, (frozenset(), frozenset(), frozenset()))
        if not A.got or any(not any(("N", x) in m for x in nums) for m in A.got):
            return False
    return True


def helper(A, f):
    """a function that only closes or renames what others opened"""
    op = any((n.k == "Call" and n.name == "open") or (n.k == "Decl" and any(is_out(v.t) for v in n.vars)) for n in f.walk())
    mv = any(n.k == "Call" and n.name in ("rename", "close") and (n.obj is None or is_out(n.obj.t)) for n in f.walk())
    return mv and not op


def assigned_member(fr, q):
    return any(written(n) is not None and fr.of(written(n)[0]) == q for n in fr.fn.walk())


def judge(ctx, tot, what, fr, n, names, must, may):
    f = fr.fn
    where = n.loc()
    if what == "open":
        a = names[0]
        if not is_state(a):
            return
        first = any(x[0] == "E" and any(assigned_member(g, x[1]) for g in [fr] + list(up(fr))) for x in must)
        ctx.check(first, "inplace", short(f), where,
                  "%s writes the state %s in place: a crash in between leaves no complete state" % (short(f), pattern(a)),
                  "%s creates the first state %s [%s]" % (short(f), pattern(a), where))
    elif what == "late":
        a = names[0]
        if "ff_save/" in head(a):
            ctx.bad("complete", "%s:late" % short(f), where, "%s writes to %s after closing it" % (short(f), pattern(a)))
    elif what == "remove":
        a = names[0]
        if unknown(a):
            t = "kept: %s removes a file whose name is not known (%s)" % (short(f), where)
            if t not in ctx.notes:
                ctx.notes.append(t)
        elif is_state(a):
            ctx.bad("kept", "%s:remove" % short(f), where, "%s removes the state %s" % (short(f), pattern(a)))
        else:
            ctx.ok("kept", "%s removes %s" % (short(f), pattern(a)))
    elif what == "rename":
        a, b = names
        if is_state(a) and not is_state(b):
            ctx.bad("kept", "%s:away" % short(f), where, "%s moves the state %s to %s where the resume does not look" % (short(f), pattern(a), pattern(b)))
            return
        if not is_state(b):
            return
        tot[0] += 1
        if is_state(a):
            ctx.check(("R", b) not in may, "kept", "%s:older" % short(f), where,
                      "%s renames %s over %s after the new state was put there" % (short(f), pattern(a), pattern(b)),
                      "%s keeps %s as %s [%s]" % (short(f), pattern(a), pattern(b), where))
            return
        if unknown(a):
            ctx.notes.append("complete: %s renames a file whose name is not known onto a state (%s)" % (short(f), where))
            return
        ctx.check(("C", a) in must and ("O", a) not in may, "complete", short(f), where,
                  "%s replaces the state %s by %s, which is not known to be completely written and closed on every path" % (short(f), pattern(b), pattern(a)),
                  "%s: %s is closed before it becomes %s [%s]" % (short(f), pattern(a), pattern(b), where))
        if any(m.startswith("private") or m.startswith("protected") for m in [f.raw.get("acc") or ""]):
            nums = [x[1] for x in b if not isinstance(x, str) and "prime" in x[1]]
            zero = not nums or any(("N", x) in must for x in nums)
            if not zero:
                # every caller may know that this is the first field
                zero = first_field(ctx.c07P, f, nums)
            ctx.check(zero, "kept", "%s:stale" % short(f), where,
                      "%s puts %s in place although an older state may stay under the previous number, which is moved over it later" % (short(f), pattern(b)),
                      "%s: the older state has given up its name before %s" % (short(f), where))
        ids = {x for x in b if not isinstance(x, str) and "tag" in x[1]}
        ctx.check(ids <= set(a), "own", short(f), where,
                  "%s: the temporary file %s is shared by several functions" % (short(f), pattern(a)),
                  "%s: %s -> %s" % (short(f), pattern(a), pattern(b)))


def up(fr):
    x = fr.up
    while x is not None:
        yield x
        x = x.up
