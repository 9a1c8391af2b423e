"""C18: an error report is followed by the end of the program (failure status) or an exception.

Error reports are found in the resolved program (uses of the logger's error
levels), then a forward dataflow analysis over the CFG follows every path from
the report. A path that reaches the end of the function passes the obligation
to the callers (with the constant returned on it, if any)."""
TECHNIQUE = "interprocedural must-exit dataflow from every error report over the clang CFG"
NOTE = ("Covers every error the library reports through its logger or an exception type, in all configurations. A report inside a private helper "
        "whose result every caller tests counts as handled. Errors that are never reported at all are not seen.")

from ..core import *
from ..core import strip
from collections import defaultdict

LEVELS = {"firefly::kError", "firefly::kFatal"}


def is_report(n):
    if n.k == "Ref" and n.d.get("dk") == "enum" and n.d.get("q") in LEVELS:
        a = n.p
        while a is not None and a.k in ("Cast",):
            a = a.p
        return a is not None and a.k == "Switch"
    return False


def error_name(n):
    """message literal of the report at this node (the Str nearest in the same do-while)"""
    a = n
    best = ""
    for x in n.ancestors():
        if x.k == "Do":
            a = x
        elif x.k not in ("Switch", "Compound", "Case", "Cast"):
            break
    for x in a.walk():
        if x.k == "Str" and not x.d["v"].startswith("FireFly ") and len(x.d["v"]) > 3 and "\033" not in x.d["v"] and not x.d["v"].startswith("(file") and not x.d["v"].startswith(", line") and not x.d["v"].startswith("/"):
            return x.d["v"][:60]
    return best


def exit_status(n):
    """None: not an exit; else True when it ends in failure"""
    if n.k == "Throw":
        return True
    if n.k == "Call" and n.name in ("exit", "_exit", "quick_exit", "_Exit"):
        a = n.args()
        v = strip(a[0]).cv if a else None
        if v is None and a:
            v = a[0].cv
        return v != 0
    if n.k == "Call" and n.name in ("abort", "terminate", "MPI_Abort"):
        return True
    return None


class Seal:
    def __init__(self, P, ctx):
        self.P = P
        self.ctx = ctx
        self.zero_exits = {}
        self.sites = {}
        self.unsealed = {}        # fn.u -> frozenset((site, ret))
        self.noreturn = set()
        self.fixpoint()

    def relevant(self):
        src = set()
        for f in self.P.fns.values():
            if any(is_report(n) for n in f.walk()):
                src.add(f.u)
        return src

    def fixpoint(self):
        self.P.link()
        # functions whose end is unreachable
        changed = True
        cand = [f for f in self.P.fns.values() if f.raw.get("body") and any(is_exit(n) or n.k == "Call" for n in f.walk())]
        wl = set(f.u for f in cand if any(is_exit(n) for n in f.walk()))
        callers = self.P.callers()
        while wl:
            u = wl.pop()
            if u in self.noreturn:
                continue
            f = self.P.fns[u]
            if f.cfg is None:
                continue
            inn = forward(f, True, lambda k, n, s: None if (k == "S" and self.ends(n)) else s, lambda a, b: True)
            if f.cfg.exit not in inn:
                self.noreturn.add(u)
                for g, _ in callers.get(u, ()):
                    wl.add(g.u)
        wl = set(self.relevant())
        todo = list(wl)
        while todo:
            u = todo.pop()
            f = self.P.fns[u]
            res = self.analyse(f)
            if res != self.unsealed.get(u, frozenset()):
                self.unsealed[u] = res
                for g, _ in callers.get(u, ()):
                    if g.u not in todo:
                        todo.append(g.u)

    def ends(self, n):
        if is_exit(n):
            return True
        if n.k in ("Call", "Construct"):
            g = self.P.callee(n)
            if g is not None and g.u in self.noreturn:
                return True
        return False

    def analyse(self, f):
        if f.cfg is None:
            return frozenset()
        P = Paths(f)

        def tr(kind, n, s):
            # state: frozenset of (site, retval, binding) ; binding: decl the returned value was stored in
            if kind != "S":
                return s
            st = exit_status(n)
            if st is not None:
                if st is False:
                    for x in s:
                        self.zero_exits[x[0]] = n
                return None
            if is_report(n):
                key = (f.u, error_name(n), n.l)
                self.sites[key] = (f, n)
                return s | frozenset([(key, None, None)])
            if n.k in ("Call", "Construct"):
                g = self.P.callee(n)
                if g is not None:
                    if g.u in self.noreturn:
                        return None
                    for (site, ret) in self.unsealed.get(g.u, ()):
                        s = s | frozenset([(site, ret, n.id)])
            if n.k == "Decl":
                for v in n.vars:
                    i = strip(v.init) if v.init is not None else None
                    if i is not None:
                        s = frozenset((a, r, ("d", v.d) if b == i.id else b) for a, r, b in s)
            if n.k == "Assign" and n.op == "=":
                lp = P.of(n.c[0])
                i = strip(n.c[1])
                if lp[0] == "L" and i is not None:
                    s = frozenset((a, r, ("d", lp[1]) if b == i.id else b) for a, r, b in s)
            if n.k == "Return":
                v = strip(n.c[0]) if n.c and n.c[0] is not None else None
                cv = v.cv if v is not None else None
                if cv is None and v is not None and n.c[0].cv is not None:
                    cv = n.c[0].cv
                out = set()
                for a, r, b in s:
                    if v is not None and (b == v.id or (isinstance(b, tuple) and P.of(v)[:2] == ("L", b[1]))):
                        out.add((a, r, "ret"))
                    else:
                        out.add((a, cv, "ret"))
                s = frozenset(out)
                if f.n == "main" and cv not in (None, 0):
                    return None
            return s

        def edge(B, i, s):
            c = f.cfg.cond(B)
            if c is None or len(B.s) != 2 or not s:
                return s
            neg = False
            c = strip(c)
            while c is not None and c.k == "Un" and c.op == "!":
                neg = not neg
                c = strip(c.c[0])
            if c is None:
                return s
            taken = (i == 0) != neg
            lp = P.of(c)
            out = set()
            for a, r, b in s:
                if r is not None and (b == c.id or (isinstance(b, tuple) and lp[:2] == ("L", b[1]))):
                    if bool(r) != taken:
                        continue
                out.add((a, r, b))
            return frozenset(out) if out or not s else s if False else frozenset(out)

        feas = feasible_edges(f)

        def edge2(B, i, s):
            if (B.id, i) not in feas:
                return None
            return edge(B, i, s)

        inn = forward(f, frozenset(), tr, lambda a, b: a | b, edge2)
        ex = inn.get(f.cfg.exit, frozenset())
        return frozenset((a, r if b == "ret" else None) for a, r, b in ex)

    def tested_by_callers(self, f):
        """every caller branches on the value the function returns"""
        if f.ret == "void":
            return False
        cs = self.P.callers().get(f.u, ())
        for g, n in cs:
            refs = {n.id}
            decls = set()
            for x in g.walk():
                for v in x.vars:
                    if v.init is not None and strip(v.init) is not None and strip(v.init).id == n.id:
                        decls.add(v.d)
                if x.k == "Assign" and x.c[1] is not None and strip(x.c[1]).id == n.id and strip(x.c[0]).k == "Ref":
                    decls.add(strip(x.c[0]).d["d"])
            ok = False
            for x in g.walk():
                if x.k in ("If", "While", "For", "Do", "Cond"):
                    c = x.c[1] if x.k in ("For", "Do") else x.c[0]
                    if c is None:
                        continue
                    for y in c.walk():
                        if y.id in refs or (y.k == "Ref" and y.d.get("d") in decls):
                            ok = True
            if not ok:
                return False
        return True


def fact_of(c):
    """(canonical text, truth) of an equality test on a local"""
    neg = False
    c = strip(c)
    while c is not None and c.k == "Un" and c.op == "!":
        neg = not neg
        c = strip(c.c[0])
    if c is None:
        return None
    if c.k == "Bin" and c.op in ("==", "!="):
        a, b = strip(c.c[0]), strip(c.c[1])
    elif c.k == "Call" and c.op in ("==", "!=") and len(c.args()) == 2:
        a, b = strip(c.args()[0]), strip(c.args()[1])
    else:
        return None
    if a.k == "Ref" and a.d.get("dk") in ("local", "param"):
        while b is not None and b.k == "Construct" and len(b.args()) == 1:
            b = strip(b.args()[0])
        if b is not None and b.cv is not None:
            return (a.d["d"], b.cv), (c.op == "==") != neg
    return None


def feasible_edges(f):
    """branch edges not contradicted by an equality fact that holds on every path"""
    out = set()

    def tr(kind, n, s):
        if kind == "S":
            w = None
            if n.k == "Assign":
                w = strip(n.c[0])
            elif n.k == "Un" and n.op in ("++", "--", "&"):
                w = strip(n.c[0])
            elif n.k == "Call" and (n.op or "").endswith("=") and n.op not in ("==", "!=", "<=", ">=") and n.args():
                w = strip(n.args()[0])
            if w is not None and w.k == "Ref":
                s = frozenset(x for x in s if x[0][0] != w.d["d"])
            if n.k == "Decl":
                ds = {v.d for v in n.vars}
                s = frozenset(x for x in s if x[0][0] not in ds)
        return s

    def edge(B, i, s):
        c = f.cfg.cond(B)
        if c is not None and len(B.s) == 2:
            ft = fact_of(c)
            if ft is not None:
                truth = ft[1] if i == 0 else not ft[1]
                if (ft[0], not truth) in s:
                    return None
                s = s | frozenset([(ft[0], truth)])
        out.add((B.id, i))
        return s

    forward(f, frozenset(), tr, lambda a, b: a & b, edge)
    return out


def run(ctx):
    ctx.rule("sealed", "every path from an error report ends the program with a failure status or leaves by an exception")
    ctx.rule("status", "an exit reached after an error report has a failure status")
    ctx.rule("thrown", "an exception object that is created is thrown")
    ctx.rule("swallow", "an exception handler does not silently continue")
    progs = load(("default", "flint", "mpi"))
    done = set()
    for cfg, P in progs.items():
        S = Seal(P, ctx)
        callers = P.callers()
        # obligations at the roots: functions without repo callers, or API
        open_sites = {}
        for u, uns in S.unsealed.items():
            f = P.fns[u]
            root = not callers.get(u) or f.lam
            public = f.raw.get("acc") == "public" or f.kind == "func"
            if root or public or f.kind in ("dtor",):
                for site, ret in uns:
                    open_sites.setdefault(site, f)
        for site, (f, n) in S.sites.items():
            key = "%s:%s" % (strip_targs(f.q), site[1])
            dk = (f.file, n.l, key)
            if site not in open_sites and site not in S.zero_exits:
                if dk not in done:
                    ctx.ok("sealed", "%s [%s]" % (key, n.loc()))
                    ctx.ok("status")
                done.add(dk)
                continue
            if site in open_sites and S.tested_by_callers(f) and callers.get(f.u):
                if dk not in done:
                    ctx.ok("sealed", "%s [%s]: result tested by every caller" % (key, n.loc()))
                done.add(dk)
                continue
            if site in open_sites and f.raw.get("acc") == "private" and f.kind == "method" and not callers.get(f.u):
                ctx.notes.append("%s at %s: function is never called" % (key, n.loc()))
                continue
            if site in open_sites:
                g = open_sites[site]
                ctx.bad("sealed", key, n.loc(), "after this error report control can continue to the end of %s (%s) as if nothing had happened" % (g.q, g.loc()))
            if site in S.zero_exits:
                ctx.bad("status", key, S.zero_exits[site].loc(), "the program ends with a success status after an error report")
        for f in P.fns.values():
            for n in f.walk():
                if n.k == "Construct" and n.t.startswith("std::") and n.t.rsplit("::", 1)[-1] in (
                        "runtime_error", "logic_error", "out_of_range", "invalid_argument", "domain_error", "exception", "overflow_error", "range_error", "length_error", "system_error"):
                    if n.p is not None and n.p.k == "Construct" and n.p.t == n.t:
                        continue
                    used = n.p is not None and n.p.k not in ("Compound", "If", "For", "While", "Do", "ForRange", "Case", "Default")
                    key = "%s:%s" % (strip_targs(f.q), txt(n)[:60])
                    if not used:
                        ctx.bad("thrown", key, n.loc(), "an exception object is created but not thrown")
                    elif (f.file, n.l, key) not in done:
                        done.add((f.file, n.l, key))
                        ctx.ok("thrown", n.loc())
                if n.k == "Catch":
                    body = n.c[0]
                    acts = [x for x in body.walk() if is_exit(x) or is_report(x) or S.ends(x)] if body is not None else []
                    assigns = [x for x in body.walk() if x.k in ("Assign", "Return", "Call")] if body is not None else []
                    key = "%s:catch" % strip_targs(f.q)
                    if (f.file, n.l, key) in done:
                        continue
                    done.add((f.file, n.l, key))
                    ctx.check(bool(acts or assigns), "swallow", key, n.loc(), "an exception is swallowed without any reaction")
    ctx.need("sealed", ctx.n("sealed"), "error reports")
