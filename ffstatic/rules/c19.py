"""C19: the variable order is applied consistently.

Positions are typed: `optimal_var_order` leads from the library's position (first)
to the user's position (second); the shift, the anchor points (get_rand_zi_vec) and
the degree bounds are indexed by the library's position, an evaluation point by the
user's. Every store of a coordinate is an obligation on the types of its indices
under the facts (flow-sensitive, interprocedural) known about change_var_order."""
import re

TECHNIQUE = "index-space typing of every store of a point, exponent, degree bound and symbol, with interprocedural facts about the reordering flag over the clang CFG; may-dataflow that no result leaves without its order"
NOTE = ("Decides that positions are translated in the right direction wherever coordinates, exponents, symbols and degree bounds change sides; the values themselves are the subject of N01/C12. "
        "Indices that are not resolved to affine expressions of loop variables and order entries are reported as notes.")

from ..core import *
from ..core import strip
from ..inter import Inter, leaf_cond, facts
from .c12 import primary
from .c13b import poly, const, loop_of, Poly, stable
from .c20 import subscript, assigned, bare, rr, loops, inside, cls, scope
from .c23 import short

ORDER = ("this", "optimal_var_order")
FLAG = ("this", "change_var_order")
SHIFT = ("this", "shift")
GETS = ("get_rand_zi_vec",)


def is_order(p):
    return p[:2] == ORDER or len(p) >= 2 and p[1] == "order_map" and p[0] == "this"


def side(fr, e, depth=0):
    """(kind, polynomial) of an index: kind 'in' = library position of an entry of the order,
    'out' = user's position of that entry, 'idx' = another affine expression"""
    e = strip(e)
    if e is None or depth > 8:
        return None
    while e.k in ("Construct", "Cast") and len(e.args() or e.c) == 1:
        e = strip((e.args() or e.c)[0])
    if e.cv is not None:
        return ("idx", const(e.cv))
    s = subscript(e)
    if s is not None and is_order(fr.of(s[0])) and not (e.k == "Call" and e.name in ("find", "count")):
        k = side(fr, s[1], depth + 1)
        return ("out", k[1]) if k is not None and k[0] in ("idx", "in") else None
    p = fr.of(e)
    if p[0] == "L" and len(p) == 3:
        v = fr.paths.decls.get(p[1])
        if v is not None and v.init is not None and stable(fr.fn, v.d) and not counter(fr.fn, v):
            return side(fr, v.init, depth + 1)
    if p[0] == "L" and len(p) == 4 and p[3] in ("first", "second"):
        # a copy of an entry
        v = fr.paths.decls.get(p[1])
        if v is not None and v.init is not None and is_order(fr.of(v.init)):
            return ("in" if p[3] == "first" else "out", Poly({(p[2] + "#" + str(p[1]),): 1}))
    if is_order(p) and p[-1] in ("first", "second"):
        # an entry found by its key
        for x in e.walk():
            if x.k == "Ref":
                v = fr.paths.decls.get(x.d.get("d"))
                if v is not None and v.init is not None:
                    i = strip(v.init)
                    if i.k == "Call" and i.name == "find" and i.args():
                        k = side(fr, i.args()[0], depth + 1)
                        return (("in" if p[-1] == "first" else "out"), k[1]) if k is not None else None
        return ("in" if p[-1] == "first" else "out", Poly({("entry",): 1}))
    if e.k == "Bin" and e.op in ("+", "-"):
        a, b = side(fr, e.c[0], depth + 1), side(fr, e.c[1], depth + 1)
        if a is None or b is None:
            return None
        kinds = {x[0] for x in (a, b) if x[1].atoms()}
        if len(kinds) > 1:
            return None
        return (kinds.pop() if kinds else "idx", a[1].add(b[1], 1 if e.op == "+" else -1))
    q = poly(fr.paths, e)
    return ("idx", q) if q is not None else None


def counter(f, v):
    for l in loops(f):
        if l.k == "For" and l.c and l.c[0] is not None and l.c[0].k == "Decl" and any(w.d == v.d for w in l.c[0].vars):
            return True
    return False


def flagged(fr, t):
    """a test, through a local that keeps its value"""
    b = bare(t)
    if b is not None and b.k == "Ref":
        v = fr.paths.decls.get(b.d.get("d"))
        if v is not None and v.init is not None and v.t.replace("const ", "") == "bool" and stable(fr.fn, v.d):
            return bare(v.init)
    return b


def guarded_zero(fr, n, key):
    """does the expression stand where an index is known to be 0?"""
    x = n
    for a in n.ancestors():
        if a.k in ("If", "Cond") and len(a.c) > 1 and not any(y is x for y in [a.c[0]]):
            c = strip(a.c[0])
            then = a.c[1] is not None and inside(a.c[1], n)
            if c is not None and c.k == "Bin" and c.op in ("==", "!=", ">"):
                for u, w in ((c.c[0], c.c[1]), (c.c[1], c.c[0])):
                    z = strip(w)
                    if z is not None and z.cv == 0:
                        s = side(fr, u)
                        if s is not None and s[0] in ("in", "idx") and s[1] == key and (c.op == "==") == then:
                            return True
        x = a
    return False


class Points(Inter):
    def __init__(self, P, ctx):
        Inter.__init__(self, P)
        self.ctx = ctx
        self.seen = {}
        self.internal = {}
        self.stores = 0

    def is_event(self, n, fn):
        if not scope(fn):
            return False
        s = subscript(n) if n.k in ("Sub", "Call") else None
        return s is not None and strip(s[0]) is not None and strip(s[0]).k == "Member" and strip(s[0]).name == "shift"

    def skip(self, g):
        return not scope(g)

    def wants(self, kind, n, fn):
        return kind == "S" and (n.k in ("Assign", "Call", "Decl"))

    def join(self, a, b):
        return a & b

    def edge(self, fr, B, i, st):
        c = fr.fn.cfg.cond(B)
        if c is None or len(B.s) != 2:
            return st
        leaf, neg = leaf_cond(c)
        for t, v in facts(leaf, (i == 0) ^ neg):
            b = flagged(fr, t)
            if b is None:
                continue
            if fr.of(b) == FLAG:
                st = frozenset(x for x in st if x[0] != "flag") | {("flag", v)}
            elif b.k == "Member" and b.name == "factor_scan" and fr.of(b) == ("this", "factor_scan"):
                st = frozenset(x for x in st if x[0] != "scan") | {("scan", v)}
            elif b.k == "Bin" and b.op in ("==", "!="):
                for x, y in ((b.c[0], b.c[1]), (b.c[1], b.c[0])):
                    z = strip(y)
                    if z is not None and z.cv == 0:
                        s = side(fr, x)
                        if s is not None and s[0] in ("in", "idx"):
                            st = st | {("zero", s[0], frozenset(s[1].items()), (b.op == "==") == v)}
            else:
                # a plain number as a condition
                s = side(fr, b) if b.k in ("Member", "Ref") and not b.t.endswith("bool") else None
                if s is not None and s[0] == "in":
                    st = st | {("zero", s[0], frozenset(s[1].items()), not v)}
        return st

    # ---- sources of a value
    def sources(self, fr, e, depth=0, seen=None):
        """[(array, index, frame)] of the library's arrays that flow into a value"""
        out = []
        if e is None or depth > 6:
            return out
        seen = seen if seen is not None else set()
        for x in e.walk():
            s = subscript(x)
            if s is not None and not (x.k == "Call" and x.name in ("find", "count")):
                p = fr.of(s[0])
                if p == SHIFT:
                    out.append(("shift", s[1], fr))
                elif p[0] == "L" and len(p) == 3:
                    if self.anchor(fr, p):
                        out.append(("anchor", s[1], fr))
                    elif (p[1],) in self.internal:
                        out.append(("shift", s[1], fr))
                    elif self.anchor_param(fr, s[0]):
                        out.append(("anchor", s[1], fr))
            if x.k == "Ref" and (fr.fn.u, x.d.get("d")) not in seen:
                seen.add((fr.fn.u, x.d.get("d")))
                v = fr.paths.decls.get(x.d.get("d"))
                if v is not None and v.init is not None and not v.t.startswith("std::vector") and not v.n.startswith("__"):
                    out += self.sources(fr, v.init, depth + 1, seen)
                if v is not None and not v.t.startswith("std::vector") and not fr.paths._alias(v):
                    for y in fr.fn.walk():
                        a = assigned(y) if y.k in ("Assign", "Call") else None
                        if a is not None and strip(a[0]).k == "Ref" and strip(a[0]).d.get("d") == v.d:
                            out += self.sources(fr, a[1], depth + 1, seen)
            g = self.P.callee(x) if x.k == "Call" else None
            if g is not None and g.raw.get("body") is not None and scope(g) and g.u not in [k[0] for k in seen if len(k) == 3]:
                seen.add((g.u, x.id, "call"))
                from ..inter import Frame
                sub = Frame(g, self.bind(fr, x, g), fr, x)
                for y in g.walk():
                    if y.k == "Return" and y.c and y.c[0] is not None:
                        out += self.sources(sub, y.c[0], depth + 1, seen)
        return out

    def anchor(self, fr, p):
        v = fr.paths.decls.get(p[1])
        if v is None or not v.t.replace("const ", "").startswith("std::vector"):
            return False
        es = [v.init] if v.init is not None else []
        for y in fr.fn.walk():
            a = assigned(y) if y.k in ("Assign", "Call") else None
            if a is not None and strip(a[0]).k == "Ref" and strip(a[0]).d.get("d") == v.d:
                es.append(a[1])
        return any(c.k == "Call" and c.name in GETS for e in es for c in e.walk())

    def anchor_param(self, fr, e):
        e = strip(e)
        x = fr
        while e is not None and e.k == "Ref" and x.up is not None and x.call is not None:
            args = x.call.args()
            if x.call.op == "()":
                args = args[1:]
            hit = None
            for pv, a in zip(x.fn.params, args):
                if pv.d == e.d.get("d"):
                    hit = a
            if hit is None:
                return False
            x, e = x.up, strip(hit)
            p = x.of(e)
            if p[0] == "L" and self.anchor(x, p):
                return True
        return False

    def report(self, rule, ok, fr, n, key, msg):
        k = (rule, key, n.loc())
        if not ok:
            self.seen[k] = (False, msg, short(fr.fn))
        else:
            self.seen.setdefault(k, (True, msg, short(fr.fn)))

    def event(self, fr, kind, n, st):
        if kind not in ("S", "call"):
            return st
        a = assigned(n) if n.k in ("Assign", "Call") else None
        if a is not None and fr.of(bare(a[0])) == FLAG:
            st = frozenset(x for x in st if x[0] != "flag")
            z = strip(a[1])
            if z is not None and z.cv is not None:
                st = st | {("flag", bool(z.cv))}
            return st
        tgt = None
        if a is not None:
            t = subscript(a[0])
            if t is not None and fr.of(t[0]) != SHIFT:
                tgt = ("at", t[0], t[1], a[1])
        elif n.k == "Call" and n.obj is not None and n.name in ("emplace_back", "push_back") and n.args() and fr.of(n.obj) != SHIFT:
            tgt = ("app", n.obj, None, n.args()[0])
        elif n.k == "Call" and n.op == "<<" and len(n.args()) == 2:
            tgt = ("app", n.args()[0], None, n.args()[1])
        if tgt is None:
            return st
        src = self.sources(fr, tgt[3])
        if not any(s[0] == "shift" for s in src):
            return st
        # the sources of an inner stream operator belong to that operator
        if tgt[0] == "app" and n.op == "<<" and False:
            return st
        name = short(fr.fn)
        flag = next((x[1] for x in st if x[0] == "flag"), None)
        srcs = [(w, side(f2, i)) for w, i, f2 in src]
        where = [(i, f2) for w, i, f2 in src]
        if any(s is None for _, s in srcs):
            self.ctx.notes.append("points: an index in %s is not resolved" % name)
            return st
        self.stores += 1
        at = side(fr, tgt[2]) if tgt[0] == "at" else None
        if tgt[0] == "at" and at is None:
            self.ctx.notes.append("points: an index in %s is not resolved" % name)
            return st

        def zero(s):
            return s[1] == const(0) or not s[1]
        if flag is True or flag is None and (at is not None and at[0] == "out"):
            if at is None or at[0] != "out":
                if at is not None and at[0] == "in" or at is None or any(s[0] in ("in", "out") for _, s in srcs) or at[1].atoms() or True:
                    c = fr.of(tgt[1])
                    if tgt[0] == "at" and c[0] == "L" and self.identity(at, srcs) and (c[1],) in self.internal:
                        return st   # a point in the library's order, translated later
                    self.report("points", False, fr, n, "%s.target" % name, "%s stores a coordinate of a point at %s although the variables are reordered: the user's position is the entry's second" % (name, txt(tgt[2]) if tgt[2] is not None else "the end"))
                return st
            key = at[1]
            for (w, s), (i, f2) in zip(srcs, where):
                want = key if w == "shift" else key.add(const(-1))
                good = s[0] in ("in", "idx") and s[1] == want and (s[0] == "in" or "entry" not in key.atoms())
                if not good and zero(s) and w == "shift" and s[0] == "idx":
                    # the first variable, known to be meant
                    good = any(x[0] == "zero" and x[3] and x[2] == frozenset(key.items()) for x in st) or guarded_zero(f2, i, key)
                self.report("points", good, fr, n, "%s.source" % name, "%s puts %s of another variable at the user's position of an entry of the order" % (name, "the shift" if w == "shift" else "the anchor point"))
            return st
        if flag is None and ("scan", True) not in st:
            c = fr.of(tgt[1])
            if tgt[0] == "at" and c[0] == "L" and (c[1],) in self.internal and self.internal[(c[1],)]:
                return st
            self.report("points", False, fr, n, "%s.gate" % name, "%s builds a point without regard to the variable order" % name)
            return st
        # the user's order is the library's
        for (w, s), wh in zip(srcs, where):
            if s[0] in ("in", "out"):
                self.report("points", False, fr, n, "%s.entry" % name, "%s uses an entry of the order although the variables are not reordered" % name)
                continue
            if at is not None:
                want = at[1] if w == "shift" else at[1].add(const(-1))
                self.report("points", at[0] == "idx" and (s[1] == want or w == "shift" and zero(s) and guarded_zero(wh[1], wh[0], at[1])), fr, n, "%s.plain" % name, "%s stores %s of one variable as the coordinate of another one" % (name, "the shift" if w == "shift" else "the anchor point"))
            else:
                sh = [x for u, x in srcs if u == "shift"]
                want = sh[0][1] if w == "shift" else sh[0][1].add(const(-1))
                ok = s[1] == want
                if w == "shift" and s[1].atoms():
                    ok = ok and len(s[1].atoms()) == 1 and self.rising(fr, n, s[1])
                self.report("points", ok, fr, n, "%s.plain" % name, "%s appends coordinates of different variables or in another order than the variables'" % name)
        return st

    @staticmethod
    def identity(at, srcs):
        return at[0] == "idx" and all(s[0] == "idx" and s[1] == (at[1] if w == "shift" else at[1].add(const(-1))) for w, s in srcs)

    def rising(self, fr, n, p):
        for l in loops(fr.fn):
            if l.k == "For" and inside(l, n):
                x = loop_of(fr.paths, l)
                if x is not None and x[0] in p.atoms():
                    return p.get((x[0],)) == 1
        return True

    def prepare(self):
        """local vectors that hold a point in the library's order and are translated later"""
        for f in self.P.fns.values():
            if f.raw.get("body") is None or not scope(f):
                continue
            from ..inter import Frame, FPaths
            fr = Frame(f, FPaths(f, {}))
            cand = {}
            for n in f.walk():
                a = assigned(n) if n.k in ("Assign", "Call") else None
                t = subscript(a[0]) if a is not None else None
                if t is None:
                    continue
                c = fr.of(t[0])
                if c[0] != "L" or len(c) != 3:
                    continue
                src = self.sources(fr, a[1])
                if any(s[0] == "shift" for s in src):
                    at = side(fr, t[1])
                    srcs = [(w, side(f2, i)) for w, i, f2 in src]
                    if at is not None and all(s is not None for _, s in srcs) and self.identity(at, srcs):
                        cand.setdefault((c[1],), []).append(n)
            for k in cand:
                # is it read with the position of an entry?
                used = False
                for n in f.walk():
                    a = assigned(n) if n.k in ("Assign", "Call") else None
                    t = subscript(a[0]) if a is not None else None
                    if t is None:
                        continue
                    o = side(fr, t[1])
                    if o is None or o[0] != "out":
                        continue
                    for x in a[1].walk():
                        s = subscript(x)
                        if s is not None and fr.of(s[0])[:2] == ("L", k[0]):
                            used = True
                if used:
                    self.internal[k] = True


class Results(Inter):
    """may-facts: results that have not been given the user's order yet"""

    def __init__(self, P, ctx):
        Inter.__init__(self, P)
        self.ctx = ctx
        self.bad = {}
        self.tr = {}
        self.n = 0

    def is_event(self, n, fn):
        return n.k == "Call" and (rr(n) in ("get_result", "get_result_ff") or n.name == "set_var_order")

    def skip(self, g):
        return not scope(g)

    def wants(self, kind, n, fn):
        return kind == "S" and n.k in ("Call", "Assign")

    def join(self, a, b):
        return a | b

    def translates(self, fr, l):
        """does a loop translate exponents?"""
        k = (fr.fn.u, l.id)
        if k not in self.tr:
            self.tr[k] = any(self.moved(fr, n) for n in l.walk())
        return self.tr[k]

    def moved(self, fr, n):
        a = assigned(n) if n.k in ("Assign", "Call") else None
        if a is None:
            return False
        t, s = subscript(a[0]), subscript(a[1])
        if t is None or s is None:
            return False
        o, i = side(fr, t[1]), side(fr, s[1])
        return o is not None and i is not None and o[0] == "out" and i[0] in ("in", "idx") and o[1] == i[1]

    def edge(self, fr, B, i, st):
        c = fr.fn.cfg.cond(B)
        if B.tk in ("For", "ForRange", "While", "ForStmt", "CXXForRangeStmt", "WhileStmt") and i == 1 and st:
            l = fr.fn.nodes.get(B.t) if not isinstance(B.t, Node) else B.t
            if l is not None and self.translates(fr, l):
                # a loop over all variables (or all terms) translates the exponents
                st = frozenset(x for x in st if x[0] != "get_result_ff")
        if c is None or len(B.s) != 2:
            return st
        leaf, neg = leaf_cond(c)
        for t, v in facts(leaf, (i == 0) ^ neg):
            b = flagged(fr, t)
            if b is not None and fr.of(b) == FLAG and not v:
                return frozenset()
            if b is not None and b.k == "Call" and b.name == "empty" and b.obj is not None and fr.of(b.obj) == ORDER and v:
                return frozenset()
            if b is not None and b.k == "Member" and fr.of(b) == ("this", "factor_scan") and v:
                return frozenset()
        return st

    def event(self, fr, kind, n, st):
        if kind not in ("S", "call"):
            return st
        if n.k == "Call" and rr(n) in ("get_result", "get_result_ff"):
            self.n += 1
            for x in st:
                self.bad[x] = x
            return st | {(n.name, n.loc(), short(fr.fn))}
        if n.k == "Call" and n.name == "set_var_order" and n.args():
            if fr.of(n.args()[0]) == ORDER:
                return frozenset(x for x in st if x[0] != "get_result")
            return st
        if self.moved(fr, n):
            # the exponents are translated
            return frozenset(x for x in st if x[0] != "get_result_ff")
        return st


def scanning(f):
    while f.lam and f.parent_fn is not None:
        f = f.parent_fn
    return any(rr(n) == "get_factors_ff" for n in f.walk())


def results(ctx, P, cfg, fs):
    R = Results(P, ctx)
    tot = 0
    takes = []
    for f in fs:
        if f.raw.get("body") is None or f.lam:
            continue
        # functions handing out results
        if re.search(r"RationalFunction(FF)?\b", f.ret):
            takes.append(f)
    callers = P.callers()
    for f in takes:
        if any(scope(g) for g, _ in callers.get(f.u, ())):
            continue
        if scanning(f):
            continue
        st = R.run(f, frozenset())
        if st:
            for x in st:
                R.bad[x] = x
        tot += 1
    for x in R.bad:
        ctx.bad("results", "%s.order" % x[2], x[1], "%s hands out a result whose variables are still in the library's order" % x[2])
    if not R.bad:
        ctx.ok("results", "[%s] %d functions hand out results, every result gets the user's order first" % (cfg, tot))
        if R.n:
            ctx.need("results", R.n, "results taken")


def complete(ctx, cfg, f, fp):
    """a loop over the order stores every coordinate"""
    for l in loops(f):
        if l.k == "ForRange":
            v = [w for x in l.c if x is not None and x.k == "Decl" for w in x.vars if w.n.startswith("__range")]
            if not v or v[0].init is None or fp.of(v[0].init) != ORDER:
                continue
            body = next((x for x in l.c if x is not None and x.k != "Decl"), None)
            if body is None:
                continue
            sub = [n for n in body.walk() if n.k in ("Assign", "Call") and assigned(n) is not None and subscript(assigned(n)[0]) is not None]
            if not sub:
                continue
            for x in body.walk():
                if x.k == "Break":
                    ctx.bad("points", "%s.break" % short(f), x.loc(), "%s stops translating the point before all variables are done" % short(f))
            for x in body.walk():
                if x.k in ("If",) and len(x.c) > 1 and any(y in sub for y in (x.c[1].walk() if x.c[1] is not None else [])):
                    if any(y.k in ("Continue", "Return") for y in x.c[1].walk()):
                        continue
                    if len(x.c) < 3 or x.c[2] is None or not any(y in sub for y in x.c[2].walk()):
                        after = [y for y in sub if not inside(x, y)]
                        if not after:
                            ctx.bad("points", "%s.all" % short(f), x.loc(), "%s leaves coordinates out when translating a point" % short(f))


def orders(ctx, P, cfg, fs):
    """writers of the order, of the flag and of the degree bounds; the saved file"""
    from ..inter import Frame, FPaths
    nw = 0
    for f in fs:
        if f.raw.get("body") is None:
            continue
        fr = Frame(f, FPaths(f, {}))
        complete(ctx, cfg, f, fr.paths)
        writes = []
        for n in f.walk():
            a = assigned(n) if n.k in ("Assign", "Call") else None
            if a is not None:
                t = subscript(a[0])
                if t is not None and fr.of(t[0]) == ORDER:
                    writes.append((n, t[1], a[1]))
            elif n.k == "Call" and n.obj is not None and n.name in ("emplace", "insert", "try_emplace", "insert_or_assign") and fr.of(n.obj) == ORDER and n.args():
                pr = n.args()
                if len(pr) == 1:
                    q = strip(pr[0])
                    while q is not None and q.k in ("Construct", "Cast", "InitList") and len(q.args() or q.c) == 1:
                        q = strip((q.args() or q.c)[0])
                    pr = q.args() if q is not None else []
                if len(pr) == 2:
                    writes.append((n, pr[0], pr[1]))
                else:
                    ctx.notes.append("order: an entry of the order is written in an unknown form in %s" % short(f))
        if not writes:
            continue
        for n, k, v in writes:
            nw += 1
            sv, sk = subscript(v), subscript(k)
            if sv is not None and sk is not None and fr.of(sv[0]) == fr.of(sk[0]):
                # a line of the file
                i, j = side(fr, sk[1]), side(fr, sv[1])
                if i is None or j is None:
                    ctx.notes.append("order: columns of the saved order not resolved in %s" % short(f))
                else:
                    ctx.check(i == ("idx", const(0)) and j == ("idx", const(1)), "order", "%s.columns" % short(f), n.loc(), "%s reads the saved order with its columns exchanged" % short(f))
            elif sv is not None:
                i, j = side(fr, k), side(fr, sv[1])
                if i is None or j is None:
                    ctx.notes.append("order: index of the sorted variables not resolved in %s" % short(f))
                else:
                    ctx.check(i == j, "order", "%s.entry" % short(f), n.loc(), "%s enters the variable of another position into the order" % short(f))
            elif sk is not None and sk[0] is not None:
                i, j = side(fr, v), side(fr, sk[1])
                ctx.check(not (i is not None and i == j), "order", "%s.inverse" % short(f), n.loc(), "%s enters the inverse of the order" % short(f))
        # the flag follows
        sets = [n for n in f.walk() if (n.k in ("Assign", "Call")) and assigned(n) is not None and fr.of(bare(assigned(n)[0])) == FLAG and strip(assigned(n)[1]).cv == 1]
        if not sets:
            # a helper may do it
            hs = [P.callee(n) for n in f.walk() if n.k == "Call"]
            for g in hs:
                if g is not None and scope(g) and g.raw.get("body") is not None:
                    fp2 = FPaths(g, {})
                    sets += [n for n in g.walk() if n.k in ("Assign", "Call") and assigned(n) is not None and fp2.of(bare(assigned(n)[0])) == FLAG]
        whole = [n for n in f.walk() if n.k in ("Assign", "Call") and assigned(n) is not None and fr.of(bare(assigned(n)[0])) == FLAG]
        ctx.check(bool(sets or whole), "flag", "%s.flag" % short(f), f.loc(), "%s determines an order of the variables but never activates it" % short(f))
        for s in sets:
            g = s.fn
            frg = Frame(g, FPaths(g, {}))
            last, okc = s, False
            for a in s.ancestors():
                if a.k == "If" and not any(x is s for x in a.c[0].walk()):
                    for x in a.c[0].walk():
                        if x.k == "Bin" and x.op in ("!=", "=="):
                            i, j = side(frg, x.c[0]), side(frg, x.c[1])
                            if i is not None and j is not None and {i[0], j[0]} in ({"out", "idx"}, {"out", "in"}):
                                okc = True
                                inthen = a.c[1] is not None and inside(a.c[1], s)
                                ctx.check(i[1] == j[1] and (x.op == "!=") == inthen, "flag", "%s.differs" % short(g), x.loc(), "%s does not activate the order when a variable changes its position" % short(g))
                if a.k == "For":
                    l = loop_of(frg.paths, a)
                    if l is not None and okc:
                        ctx.check((not l[1]) and l[2] == Poly({("n",): 1}), "flag", "%s.range" % short(g), a.loc(), "%s does not look at every variable when it decides whether the order matters" % short(g))
                        okc = False
                    elif l is not None:
                        pass
    if nw and "order" not in {v.get("rule") if isinstance(v, dict) else None for v in ctx.viol.values()}:
        ctx.ok("order", "[%s] %d places enter positions into the order" % (cfg, nw))
    # degree bounds and the saved file
    for f in fs:
        if f.raw.get("body") is None:
            continue
        fr = Frame(f, FPaths(f, {}))
        for n in f.walk():
            a = assigned(n) if n.k in ("Assign", "Call") else None
            if a is not None:
                t = subscript(a[0])
                if t is not None and fr.of(t[0])[:2] == ("this", "max_deg_map_complete"):
                    s = subscript(a[1])
                    if s is not None:
                        i, j = side(fr, t[1]), side(fr, s[1])
                        if i is None or j is None:
                            ctx.notes.append("bounds: index of the degree bounds not resolved")
                        else:
                            ctx.check((j[0] == "out" and i[0] in ("idx", "in") and i[1] == j[1]), "bounds", "%s.bounds" % short(f), n.loc(), "%s gives a variable the degree bounds of another one: the library's position has to get the bounds found at the user's position" % short(f))
                elif False:
                    pass
            if n.k == "Call" and n.op == "<<":
                if n.p is not None and strip(n.p) is not None and n.p.k == "Call" and n.p.op == "<<":
                    continue
                items = []
                x = n
                while x is not None and x.k == "Call" and x.op == "<<" and len(x.args()) == 2:
                    items.insert(0, x.args()[1])
                    x = strip(x.args()[0])
                ss = [side(fr, y) for y in items if strip(y) is not None and strip(y).k != "Str" and "char" not in strip(y).t]
                if any(s is not None and s[0] == "out" for s in ss):
                    if x is None or "fstream" not in x.t and "gzstream" not in x.t:
                        continue
                    k = next(i for i, s in enumerate(ss) if s is not None and s[0] == "out")
                    ok = k == 1 and ss[0] is not None and ss[0][0] in ("idx", "in") and ss[0][1] == ss[1][1]
                    ctx.check(ok, "order", "%s.saved" % short(f), n.loc(), "%s saves an entry of the order with exchanged or wrong columns" % short(f))
                    for an in n.ancestors():
                        if an.k == "For":
                            l = loop_of(fr.paths, an)
                            if l is not None:
                                ctx.check((not l[1]) and l[2] == Poly({("n",): 1}), "order", "%s.savedall" % short(f), an.loc(), "%s does not save every entry of the order" % short(f))
                            break
                    # what decides whether it is saved
                    names = set()
                    for an in n.ancestors():
                        if an.k == "If" and not inside(an.c[0], n):
                            for y in an.c[0].walk():
                                if y.k == "Member" and fr.of(y)[0] == "this" and len(fr.of(y)) == 2:
                                    names.add(fr.of(y)[1])
                    extra = names - {"save_states", "change_var_order", "optimal_var_order", "verbosity"}
                    if extra:
                        ctx.notes.append("order: saving also depends on %s" % ", ".join(sorted(extra)))


def printing(ctx, P, cfg):
    """the symbols a result is written with"""
    from ..inter import Frame, FPaths
    fns = [f for f in P.fns.values() if cls(f) == "RationalFunction" and f.raw.get("body") is not None and not f.lam]
    nn = 0

    def ordered(fr, e, depth=0):
        """True: symbols in the library's order, False: as given by the user, None: unknown"""
        e = strip(e)
        if e is None or depth > 5:
            return None
        p = fr.of(e)
        if p[0] == "L" and len(p) == 3:
            v = fr.paths.decls.get(p[1])
            if v is None:
                return False if any(q.d == p[1] for q in fr.fn.params) else None
            st = []
            for n in fr.fn.walk():
                a = assigned(n) if n.k in ("Assign", "Call") else None
                if a is None:
                    continue
                t = subscript(a[0])
                if t is not None and fr.of(t[0]) == p:
                    st.append((n, t[1], a[1]))
            if st:
                for n, ti, val in st:
                    s = subscript(val)
                    i, j = side(fr, ti), side(fr, s[1]) if s is not None else None
                    if i is None or j is None:
                        ctx.notes.append("symbols: index not resolved in %s" % short(fr.fn))
                        continue
                    ctx.check(j[0] == "out" and i[0] in ("in", "idx") and i[1] == j[1], "symbols", "%s.direction" % short(fr.fn), n.loc(),
                              "%s does not give each position of the library the symbol at the user's position" % short(fr.fn))
                return True
            if v.init is not None:
                return ordered(fr, v.init, depth + 1)
            return None
        while e.k in ("Construct", "Cast") and len(e.args() or e.c) == 1:
            e = strip((e.args() or e.c)[0])
            if e.k in ("Ref", "Call"):
                return ordered(fr, e, depth + 1)
        if e.k == "Call":
            g = P.callee(e)
            if g is not None and g.raw.get("body") is not None:
                sub = Frame(g, FPaths(g, {"this": ("this",)}))
                rs = {ordered(sub, n.c[0], depth + 1) for n in g.walk() if n.k == "Return" and n.c and n.c[0] is not None}
                if True in rs:
                    return True
                return rs.pop() if len(rs) == 1 else None
        if e.k == "Cond" and len(e.c) == 3:
            rs = {ordered(fr, x, depth + 1) for x in e.c[1:]}
            return True if True in rs else rs.pop() if len(rs) == 1 else None
        return None

    def emptied(fr, n):
        for a in n.ancestors():
            if a.k in ("If", "Cond") and any(x.k == "Member" and x.name == "order_map" for x in a.c[0].walk()):
                return True
        return False

    for f in fns:
        fr = Frame(f, FPaths(f, {}))
        for n in f.walk():
            if not (n.k == "Call" and n.obj is not None and n.args() and re.match(r"std::vector<std::.*string", strip(n.args()[0]).t.replace("const ", "")) and "Polynomial::" in n.d.get("fq", "")):
                continue
            p = fr.of(n.obj)
            if p[-1] not in ("numerator", "denominator"):
                continue
            o = ordered(fr, n.args()[0])
            if o is None:
                ctx.notes.append("symbols: the symbols used in %s are not resolved" % short(f))
                continue
            nn += 1
            own = p[0] == "this" and len(p) == 2
            if own:
                ctx.check(o or emptied(fr, n), "symbols", "%s.%s" % (short(f), p[-1]), n.loc(), "%s writes the %s with the symbols in the user's order although its exponents are in the library's" % (short(f), p[-1]))
            else:
                ctx.check(not o, "symbols", "%s.factor" % short(f), n.loc(), "%s writes a factor with reordered symbols although its variable is given by the user's position" % short(f))
    stores = [n for f in fns for n in f.walk() if n.k in ("Assign", "Call") and assigned(n) is not None and Frame(f, FPaths(f, {})).of(assigned(n)[0]) == ("this", "order_map") and f.n == "set_var_order"]
    sv = [f for f in fns if f.n == "set_var_order"]
    if sv:
        ctx.check(bool(stores) or any(any(x.name == "order_map" for x in f.walk() if x.k == "Member") for f in sv), "symbols", "RationalFunction::set_var_order.store", sv[0].loc(), "the order given to a result is not kept")
    return nn


def factors(ctx, P, cfg, fs):
    """factors found in one variable carry that variable's position"""
    from ..inter import Frame, FPaths
    nf = 0
    for f in fs:
        if f.raw.get("body") is None or f.lam:
            continue
        fr = Frame(f, FPaths(f, {}))
        puts = [n for n in f.walk() if n.k == "Call" and n.obj is not None and n.name in ("emplace_back", "push_back", "emplace", "insert") and fr.of(n.obj)[:2] == ("this", "factors_rf") and n.args()]
        for n in puts:
            pols = []
            for x in n.walk():
                if x.k == "Ref" and x.t.replace("const ", "").replace("firefly::", "") == "Polynomial":
                    pols.append(x)
            for x in pols:
                d = x.d.get("d")
                v = fr.paths.decls.get(d)
                if v is None:
                    continue
                asg = [y for y in f.walk() if y.k in ("Assign", "Call") and assigned(y) is not None and strip(assigned(y)[0]).k == "Ref" and strip(assigned(y)[0]).d.get("d") == d]
                pos = [y for y in f.walk() if y.k == "Call" and y.name == "set_var_pos" and y.obj is not None and fr.of(y.obj)[:2] == ("L", d)]
                if not asg and (v.init is None or not any(y.k == "Ref" for y in v.init.walk())):
                    continue
                nf += 1
                if not pos:
                    if any(P.callee(y) is not None and any(z.k == "Call" and z.name == "set_var_pos" for z in P.callee(y).walk()) for w in [v.init] + [assigned(y)[1] for y in asg] if w is not None for y in w.walk() if y.k == "Call" and P.callee(y) is not None and P.callee(y).raw.get("body") is not None):
                        ctx.notes.append("factors: position set in a helper")
                        continue
                ctx.check(bool(pos), "factors", "%s.%s" % (short(f), v.n), n.loc(), "%s keeps a factor without the position of its variable" % short(f))
                for y in pos:
                    # under every assignment
                    s = side(fr, y.args()[0])
                    # the loop over the variables: the one whose counter names the symbol
                    sc = None
                    for l in loops(f):
                        if l.k == "For" and inside(l, y):
                            q = loop_of(fr.paths, l)
                            if q is not None and q[2] == Poly({("n",): 1}):
                                sc = q
                                break
                    if s is not None and sc is not None:
                        ctx.check(s == ("idx", Poly({(sc[0],): 1})), "factors", "%s.position" % short(f), y.loc(), "%s gives a factor another position than that of the variable it was found in" % short(f))
                for y in asg:
                    a = [z for z in y.ancestors() if z.k == "Compound"]
                    if pos and a and not any(inside(a[0], z) or any(inside(b, z) and inside(b, y) and True for b in [a[0]]) for z in pos):
                        later = [z for z in pos if z.l >= y.l and all((not (w.k == "If")) or inside(w, y) for w in z.ancestors() if w.k == "If" and not inside(w, n))]
                        ctx.check(bool(later), "factors", "%s.%s.each" % (short(f), v.n), y.loc(), "%s keeps a factor without the position of its variable on some path" % short(f))
    return nf


def run(ctx):
    ctx.rule("points", "Every coordinate stored from the shift and the anchor points has the user's position of its variable, whether or not the variables are reordered")
    ctx.rule("results", "No result leaves the library before it was given the user's order, unless the variables are not reordered")
    ctx.rule("symbols", "A result is written with the symbols translated to the library's positions, its factors with the user's symbols")
    ctx.rule("order", "The order leads from the library's to the user's position, when it is determined, saved and read again")
    ctx.rule("flag", "The order is activated whenever it moves a variable")
    ctx.rule("bounds", "Degree bounds found at the user's position are given to the variable's position in the library")
    ctx.rule("factors", "Every factor carries the user's position of the variable it was found in")
    cfgs = ("default", "flint", "mpi", "flintmpi") if ctx.tier == "thorough" else ("flint", "mpi")
    W = load(cfgs)
    np = 0
    for cfg in cfgs:
        P = W[cfg]
        P.link()
        fs = [f for f in P.fns.values() if scope(f) and f.raw.get("body") is not None and primary(f)]
        M = Points(P, ctx)
        M.prepare()
        rel = [f for f in fs if not f.lam and M.relevant(f)]
        callers = P.callers()
        relu = {f.u for f in rel}
        for f in rel:
            if not any(g.u in relu and g.u != f.u for g, _ in callers.get(f.u, ())):
                M.run(f, frozenset())
        for (rule, key, loc), (ok, msg, fn) in sorted(M.seen.items()):
            if ok:
                ctx.ok(rule, "[%s] %s %s" % (cfg, key, loc))
            else:
                ctx.bad(rule, key, loc, msg)
        np += M.stores
        results(ctx, P, cfg, fs)
        orders(ctx, P, cfg, fs)
        printing(ctx, P, cfg)
        factors(ctx, P, cfg, fs)
    if not ctx.viol:
        ctx.need("points", np, "stores of coordinates")
    ctx.assume.append("A point in the library's order is never handed to the black box except through the stores analysed (values read back from the validation file and received by MPI workers are already in the user's order).")
