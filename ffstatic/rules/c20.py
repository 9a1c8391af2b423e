"""C20: results are handed out complete, in order and with their own factors.

Must-facts about one element of the list of functions (its state, whether it is
known to be finished, whether its result was taken) are propagated through the
driver's functions and their helpers; every place that hands out, finishes, gives
up or feeds an element is an obligation on these facts. Where the elements and the
results are put in order, the loops that do so are analysed."""
import re

TECHNIQUE = "interprocedural must-fact dataflow over the clang CFG of the driver (state, completion and index of list elements), plus loop and container-mutation rules for the order"
NOTE = ("One element stands for all elements of the list. That a function's own `done` flag is right is decided elsewhere (C01-C06, C22); calls of a getter by one thread while another runs the driver are the subject of C08. "
        "Keys and helper predicates the analysis cannot resolve are reported as notes.")

from ..core import *
from ..core import strip
from ..inter import Inter, leaf_cond, facts
from .c12 import primary
from .c13b import loop_of, pushes, poly
from .c23 import short

LIST = ("this", "reconst")
ELEM = ("this", "reconst", "[]")
STATES = ("RECONSTRUCTING", "DONE", "DELETE")


def cls(f):
    return (f.recn or "").split("<")[0].split("::")[-1]


def scope(f):
    x = f
    while x.lam and x.parent_fn is not None:
        x = x.parent_fn
    return cls(x) == "Reconstructor"


def bare(n):
    """through the reads of an atomic"""
    n = strip(n)
    while n is not None and n.k == "Call" and n.obj is not None and (n.name == "load" or (n.name or "").startswith("operator ")):
        n = strip(n.obj)
    return n


def state_of(n):
    n = bare(n)
    if n is not None and n.k == "Ref" and n.d.get("dk") == "enum" and n.name in STATES:
        return n.name
    return None


def rr(n):
    """a call of a member of RatReconst: its name"""
    if n.k == "Call" and n.obj is not None and re.search(r"(Rat|Base)Reconst::", n.d.get("fq", "")):
        return n.name
    return None


def subscript(n):
    """(container, key) of an element access"""
    n = strip(n)
    if n is None:
        return None
    if n.k == "Sub":
        return n.c[0], n.c[1]
    if n.k == "Call":
        if n.op == "[]" and len(n.args()) == 2:
            return n.args()[0], n.args()[1]
        if n.obj is not None and n.name in ("at", "find", "count", "operator[]") and n.args():
            return n.obj, n.args()[0]
    return None


def assigned(n):
    if n.k == "Assign" and n.op == "=":
        return n.c[0], n.c[1]
    if n.k == "Call" and n.op == "=" and len(n.args()) == 2:
        return n.args()[0], n.args()[1]
    if n.k == "Call" and n.obj is not None and n.name == "store" and n.args():
        return n.obj, n.args()[0]
    return None


class Facts(Inter):
    def __init__(self, P, ctx):
        Inter.__init__(self, P)
        self.ctx = ctx
        self.seen = {}
        self.scanfns = set()
        for f in P.fns.values():
            if f.raw.get("body") is not None and scope(f) and any(rr(n) == "get_factors_ff" for n in f.walk()):
                self.scanfns.add(f.u)

    def is_event(self, n, fn):
        if n.k == "Call" and (rr(n) in ("get_result", "feed") or n.name in ("add_factor", "make_tuple")):
            return True
        if n.k == "Delete":
            return True
        a = assigned(n) if n.k in ("Assign", "Call") else None
        return a is not None and state_of(a[1]) is not None

    def skip(self, g):
        return not scope(g)

    def wants(self, kind, n, fn):
        return kind == "S" and n.k in ("Assign", "Call", "Decl", "Return", "Delete") or kind == "S" and n.k == "Un" and n.op == "++"

    def join(self, a, b):
        return a & b

    # ---- facts
    @staticmethod
    def kill(st, pred):
        return frozenset(x for x in st if not pred(x))

    def fact_on(self, fr, t, v, st):
        t = bare(t)
        if t is None:
            return st
        if t.k == "Bin" and t.op in ("==", "!="):
            for a, b in ((t.c[0], t.c[1]), (t.c[1], t.c[0])):
                s = state_of(b)
                if s is not None and (t.op == "==") == v:
                    p = fr.of(bare(a))
                    if p[-1] == "<1>":
                        return st | {("is", p[:-1], s)}
            return st
        if t.k == "Member" and t.name in ("scan", "factor_scan") and fr.of(t) == ("this", t.name):
            return st | {("no" if not v else "yes", t.name)}
        if t.k == "Member" and fr.of(t) == ("this", "done"):
            return st | {("yes", "done")} if v else st
        if t.k == "Call" and t.name == "is_done" and v:
            if t.obj is None or fr.of(t.obj) == ("this",):
                return st | {("yes", "done")}
            return st | {("fin", fr.of(t.obj))}
        p = fr.of(t)
        if v and p[0] == "L" and len(p) == 4:
            for x in st:
                if x[0] == "tup" and x[1] == p[1] and x[3] == p[3]:
                    return st | {("fin", x[2])}
        if v and p[0] == "L" and len(p) == 3:
            for x in st:
                if x[0] == "flag" and x[1] == p[1]:
                    return st | {("fin", x[2])}
        if t.k == "Call" and v:
            # test written on the call itself: rec->get_done_and_prime().first
            pass
        if v:
            for c in t.walk():
                k = rr(c) if c.k == "Call" else None
                if k in ("get_done_and_prime", "interpolate"):
                    want = "first" if k == "get_done_and_prime" else "<1>"
                    if t.k == "Member" and t.name == want or want == "<1>" and t.k == "Call" and t.d.get("fq", "").startswith("std::get") and targ_index(t) == "1":
                        return st | {("fin", fr.of(c.obj))}
                g = self.P.callee(c) if c.k == "Call" else None
                if g is not None and scope(g) and any(rr(x) in ("is_done", "get_done_and_prime", "interpolate") for x in g.walk()):
                    return st | {("fin", "?")}
        return st

    def edge(self, fr, B, i, st):
        if B.tk == "SwitchStmt":
            t = bare(fr.fn.cfg.test(B))
            s = B.s[i]
            if t is not None and s is not None:
                lb = fr.fn.cfg.blocks[s].lb
                ln = fr.fn.nodes.get(lb) if lb is not None else None
                p = fr.of(t)
                if ln is not None and ln.k == "Case" and ln.c and p[-1] == "<1>" and state_of(ln.c[0]):
                    return st | {("is", p[:-1], state_of(ln.c[0]))}
            return st
        c = fr.fn.cfg.cond(B)
        if c is None or len(B.s) != 2:
            return st
        leaf, neg = leaf_cond(c)
        for t, v in facts(leaf, (i == 0) ^ neg):
            st = self.fact_on(fr, t, v, st)
        return st

    # ---- keys
    def keyof(self, fr, n, name, depth=0):
        """key by which an element of the map `name` was looked up"""
        n = strip(n)
        if n is None or depth > 12:
            return None
        for x in n.walk():
            s = subscript(x)
            if s is not None and fr.of(s[0]) == ("this", name):
                return fr, s[1]
        for x in n.walk():
            if x.k != "Ref":
                continue
            v = fr.paths.decls.get(x.d.get("d"))
            if v is not None and v.init is not None:
                r = self.keyof(fr, v.init, name, depth + 1)
                if r is not None:
                    return r
            if fr.up is not None and fr.call is not None:
                args = fr.call.args()
                if fr.call.op == "()":
                    args = args[1:]
                for pv, a in zip(fr.fn.params, args):
                    if pv.d == x.d.get("d"):
                        r = self.keyof(fr.up, a, name, depth + 1)
                        if r is not None:
                            return r
        return None

    def keypath(self, fr, k, st):
        p = fr.of(k)
        if p[0] == "L":
            for x in st:
                if x[0] == "val" and x[1] == p[1]:
                    return x[2]
            v = fr.paths.decls.get(p[1])
            if v is not None and v.init is not None and v.t.startswith("const "):
                q = fr.of(v.init)
                if q[0] != "?":
                    return q
        return p

    def depends(self, fr, k, st):
        """does a key have anything to do with the index of an element?"""
        if any(x.k == "Call" and self.P.callee(x) is not None for x in k.walk()):
            return True
        todo, seen = [k], set()
        while todo:
            e = todo.pop()
            for x in e.walk():
                if x.k in ("Ref", "Call", "Member") and self.keypath(fr, x, st)[-1] == "<0>":
                    return True
                if x.k == "Ref" and x.d.get("d") not in seen:
                    seen.add(x.d.get("d"))
                    v = fr.paths.decls.get(x.d.get("d"))
                    if v is not None and v.init is not None:
                        todo.append(v.init)
                    elif v is None and x.d.get("dk") not in ("global", "enum", "func"):
                        return True
        return False

    def report(self, rule, ok, fr, n, key, msg):
        k = (rule, key, n.loc())
        if not ok:
            self.seen[k] = (False, msg, short(fr.fn))
        else:
            self.seen.setdefault(k, (True, msg, short(fr.fn)))

    def scanning(self, fr, st):
        x = fr
        while x is not None:
            f = x.fn
            while f.lam and f.parent_fn is not None:
                f = f.parent_fn
            if f.u in self.scanfns or x.fn.u in self.scanfns:
                return True
            x = x.up
        return ("yes", "factor_scan") in st

    def event(self, fr, kind, n, st):
        if kind not in ("S", "call"):
            return st
        fn = fr.fn
        if n.k == "Decl":
            for v in n.vars:
                st = self.kill(st, lambda x: x[0] in ("tup", "val", "flag") and x[1] == v.d or x[0] == "res" and x[1] == v.d or x[0] == "fin" and x[1][:2] == ("L", v.d))
                if v.init is None:
                    continue
                i = strip(v.init)
                p = fr.of(v.init)
                if fr.paths._alias(v) and p == ELEM and i.k in ("Call", "Un", "Ref", "Sub"):
                    # a new element
                    st = self.kill(st, lambda x: x[0] in ("is", "taken", "fin") and x[1][:3] == ELEM or x[0] == "res" and x[2][:3] == ELEM or x[0] in ("val",) and x[2][:3] == ELEM)
                calls = [c for c in v.init.walk() if rr(c) is not None]
                for c in calls:
                    if c.name == "get_done_and_prime":
                        st = st | {("tup", v.d, fr.of(c.obj), "first")}
                        if v.t.replace("const ", "") == "bool":
                            st = st | {("flag", v.d, fr.of(c.obj))}
                    elif c.name == "interpolate":
                        st = st | {("tup", v.d, fr.of(c.obj), "<1>")}
                        if v.t.replace("const ", "") == "bool":
                            st = st | {("flag", v.d, fr.of(c.obj))}
                    elif c.name == "is_done":
                        st = st | {("flag", v.d, fr.of(c.obj))}
                    elif c.name == "get_result":
                        p = fr.of(c.obj)
                        if p[-1] == "<2>":
                            st = st | {("res", v.d, p[:-1])}
                if p[-1] == "<0>":
                    st = st | {("val", v.d, p)}
                if v.t.replace("const ", "") == "bool":
                    for leaf, val in facts(v.init, True):
                        for x in self.fact_on(fr, leaf, val, st) - st:
                            if x[0] == "fin":
                                st = st | {("flag", v.d, x[1])}
            return st
        if n.k == "Delete":
            p = fr.of(n.c[0])
            if p[-1] == "<2>" and fn.kind != "dtor":
                E = p[:-1]
                self.report("taken", ("is", E, "DELETE") in st or ("taken", E) in st, fr, n, "%s.delete" % short(fn), "%s destroys a function that was not given up" % short(fn))
            return st
        if n.k == "Un":
            if fr.of(n.c[0]) == ELEM:
                st = self.kill(st, lambda x: x[0] in ("is", "taken", "fin") and x[1][:3] == ELEM)
            return st
        if n.k == "Return":
            if cls(fn) == "RatReconst" and fn.n == "get_result" and fr.up is None and n.c:
                self.report("finished", ("yes", "done") in st, fr, n, "RatReconst::get_result.done", "RatReconst::get_result returns a result although the function need not be finished")
            return st
        a = assigned(n) if n.k in ("Assign", "Call") else None
        if a is not None:
            l, r = a
            s = state_of(r)
            p = fr.of(l)
            if s is not None and p[-1] == "<1>":
                E = p[:-1]
                if s == "DONE":
                    ok = ("is", E, "DONE") in st or any(x[0] == "fin" and (x[1] == "?" or x[1] == E + ("<2>",)) for x in st)
                    self.report("finished", ok, fr, n, "%s.DONE" % short(fn), "%s marks a function as done that is not known to be finished" % short(fn))
                elif s == "DELETE" and not self.scanning(fr, st):
                    self.report("taken", ("taken", E) in st, fr, n, "%s.DELETE" % short(fn), "%s gives a function up before its result was read" % short(fn))
                    self.report("refuse", ("no", "scan") in st and ("no", "factor_scan") in st, fr, n, "%s.refuse" % short(fn), "%s hands out and gives up functions although a scan may still be under way" % short(fn))
                st = self.kill(st, lambda x: x[0] == "is" and x[1] == E) | {("is", E, s)}
            elif s == "DONE" and p[0] == "L":
                ok = any(x[0] == "fin" for x in st)
                self.report("finished", ok, fr, n, "%s.DONE" % short(fn), "%s marks a function as done that is not known to be finished" % short(fn))
            if p[0] == "L" and len(p) == 3:
                d = p[1]
                st = self.kill(st, lambda x: x[0] in ("tup", "val", "res", "flag") and x[1] == d or x[0] == "fin" and x[1][:2] == ("L", d))
                for c in r.walk():
                    if rr(c) == "get_result" and fr.of(c.obj)[-1] == "<2>":
                        st = st | {("res", d, fr.of(c.obj)[:-1])}
                    elif rr(c) == "get_done_and_prime":
                        st = st | {("tup", d, fr.of(c.obj), "first")}
                    elif rr(c) == "interpolate":
                        st = st | {("tup", d, fr.of(c.obj), "<1>")}
                q = fr.of(r)
                if q[-1] == "<0>":
                    st = st | {("val", d, q)}
            if p == ("this", "scan") or p == ("this", "factor_scan"):
                st = self.kill(st, lambda x: x[0] in ("no", "yes") and x[1] == p[1])
            if p == ELEM or p[:2] == LIST and len(p) == 2:
                st = self.kill(st, lambda x: x[0] in ("is", "taken", "fin") and x[1][:3] == ELEM)
            return st
        if n.k != "Call":
            return st
        k = rr(n)
        if k == "get_result":
            p = fr.of(n.obj)
            if p[-1] == "<2>":
                E = p[:-1]
                ok = ("is", E, "DONE") in st or any(x[0] == "fin" and x[1] in ("?", p) for x in st)
                self.report("gate", ok, fr, n, "%s.gate" % short(fn), "%s reads the result of a function without having tested that it is done" % short(fn))
                st = st | {("taken", E)}
            return st
        if k == "feed":
            p = fr.of(n.obj)
            for x in n.args():
                s = subscript(x)
                if s is None:
                    continue
                kp = self.keypath(fr, s[1], st)
                if p[-1] == "<2>":
                    if kp[0] == "?" and self.depends(fr, s[1], st):
                        self.ctx.notes.append("own: index of the probes in %s not resolved" % short(fn))
                        continue
                    self.report("own", kp == p[:-1] + ("<0>",), fr, n, "%s.feed" % short(fn), "%s feeds a function with the values at another index than its own" % short(fn))
            return st
        if n.obj is not None and n.name in ("push_back", "emplace_back", "emplace", "push", "insert"):
            p = fr.of(n.obj)
            if p[0] == "L":
                src = None
                for c in n.walk():
                    if rr(c) == "get_result" and fr.of(c.obj)[-1] == "<2>":
                        src = fr.of(c.obj)[:-1]
                    elif c.k == "Ref":
                        for x in st:
                            if x[0] == "res" and x[1] == c.d.get("d") and x[1] != p[1]:
                                src = x[2]
                if src is not None:
                    st = self.kill(st, lambda x: x[0] == "res" and x[1] == p[1]) | {("res", p[1], src)}
            return st
        if n.name == "add_factor" and n.obj is not None and n.args():
            p = fr.of(n.obj)
            E = None
            if p[0] == "L":
                for x in st:
                    if x[0] == "res" and x[1] == p[1]:
                        E = x[2]
            kf = self.keyof(fr, n.args()[0], "factors_rf")
            if kf is None:
                self.ctx.notes.append("own: the factor added in %s is not resolved" % short(fn))
                return st
            kp = self.keypath(kf[0], kf[1], st)
            if E is None:
                return st
            if kp[0] == "?" and self.depends(kf[0], kf[1], st):
                self.ctx.notes.append("own: the key of the factors in %s is not resolved" % short(fn))
                return st
            self.report("own", kp == E + ("<0>",), fr, n, "%s.factors" % short(fn),
                        "%s combines the result of a function with the factors of another one: they are looked up with %s instead of the function's own index" % (short(fn), txt(kf[1])))
            return st
        if n.name == "make_tuple" and len(n.args()) == 3:
            if state_of(n.args()[1]) == "DONE":
                p = fr.of(n.args()[2])
                ok = any(x[0] == "fin" and (x[1] == "?" or x[1] == p) for x in st)
                self.report("finished", ok, fr, n, "%s.DONE" % short(fn), "%s marks a function as done that is not known to be finished" % short(fn))
        return st


def loops(f):
    return [n for n in f.walk() if n.k in ("For", "ForRange", "While", "Do")]


def inside(n, x):
    return any(y is x or y.id == x.id for y in n.walk())


def strings(ctx, P, f, fp):
    """a function that collects the factors of every function"""
    for n in f.walk():
        if not (n.k == "Call" and n.name == "add_factor" and n.obj is not None and n.args()):
            continue
        p = fp.of(n.obj)
        if p[0] != "L":
            continue
        v = fp.decls.get(p[1])
        if v is None or v.t.startswith("std::vector"):
            continue
        if any(rr(c) == "get_result" for c in (v.init.walk() if v.init is not None else [])):
            continue
        outer = [l for l in loops(f) if inside(l, n)]
        cl = [(l, loop_of(fp, l)) for l in outer if l.k == "For"]
        cl = [(l, x) for l, x in cl if x is not None]
        if not cl:
            ctx.notes.append("own: the loop of %s is not a counting loop" % short(f))
            continue
        l, (atom, lo, hi, body) = cl[0]
        # the key of the factors
        key = None
        for x in l.walk():
            s = subscript(x)
            if s is not None and fp.of(s[0]) == ("this", "factors_rf"):
                kk = fp.of(s[1])
                if kk[0] == "L" or not mentions(fp, s[1], atom):
                    key = "%s#%s" % (kk[2], kk[1]) if kk[0] == "L" else txt(s[1])
                    ctx.check(key == atom, "own", "%s.factors" % short(f), x.loc(), "%s looks the factors of function %s up with %s" % (short(f), atom.split("#")[0], txt(s[1])))
        ctx.check(lo == {} or not lo, "order", "%s.start" % short(f), l.loc(), "%s leaves out the first functions" % short(f))
        declared = any(w.d == p[1] for x in body.walk() for w in x.vars)
        ctx.check(declared, "own", "%s.fresh" % short(f), n.loc(), "%s adds the factors of one function to those of the functions before" % short(f))
        rets = {fp.of(x.c[0])[1] for x in f.walk() if x.k == "Return" and x.c and fp.of(x.c[0])[0] == "L"}
        for d in rets:
            w = fp.decls.get(d)
            q = pushes(fp, body, ("L", d, w.n)) if w is not None else None
            if q is None:
                ctx.notes.append("order: number of entries per function in %s not known" % short(f))
            else:
                ctx.check(q == poly_one(), "order", "%s.one" % short(f), l.loc(), "%s does not hand out exactly one entry per function" % short(f))


def mentions(fp, e, atom):
    """does an expression depend on a variable?"""
    todo, seen = [e], set()
    while todo:
        y = todo.pop()
        for x in y.walk():
            if x.k == "Ref" and x.d.get("d") not in seen:
                seen.add(x.d.get("d"))
                if "%s#%s" % (x.name, x.d.get("d")) == atom:
                    return True
                v = fp.decls.get(x.d.get("d"))
                if v is not None and v.init is not None:
                    todo.append(v.init)
    return False


def poly_one():
    from .c13b import const
    return const(1)


BADLIST = {"emplace_front", "push_front", "sort", "reverse", "splice", "merge", "swap", "unique"}
BADALG = {"reverse", "sort", "stable_sort", "rotate", "shuffle", "random_shuffle", "partition", "swap", "iter_swap", "swap_ranges"}


def order(ctx, P):
    n_push = 0
    for f in P.fns.values():
        if f.raw.get("body") is None or not scope(f) or not primary(f):
            continue
        fp = Paths(f)
        hands = [n for n in f.walk() if rr(n) in ("get_result", "get_result_ff")]
        rets = {fp.of(x.c[0])[1] for x in f.walk() if x.k == "Return" and x.c and fp.of(x.c[0])[0] == "L"} if hands else set()
        for n in f.walk():
            if n.k != "Call":
                continue
            o = fp.of(n.obj) if n.obj is not None else None
            if o == LIST:
                if n.name in BADLIST:
                    ctx.bad("order", "%s.%s" % (short(f), n.name), n.loc(), "%s changes the order of the functions (%s)" % (short(f), n.name))
                elif n.name in ("insert", "emplace"):
                    e = strip(n.args()[0]) if n.args() else None
                    if not (e is not None and e.k == "Call" and e.name in ("end", "cend")):
                        ctx.bad("order", "%s.%s" % (short(f), n.name), n.loc(), "%s inserts functions in the middle of the list" % short(f))
                elif n.name in ("rbegin", "crbegin") and hands:
                    ctx.bad("order", "%s.%s" % (short(f), n.name), n.loc(), "%s hands out the functions backwards" % short(f))
                if n.name in ("emplace_back", "push_back", "insert", "emplace"):
                    n_push += 1
                    build(ctx, P, f, fp, n)
            elif o is not None and o[0] == "L" and o[1] in rets and len(o) == 3:
                if n.name in ("insert", "emplace"):
                    e = strip(n.args()[0]) if n.args() else None
                    ctx.check(e is not None and e.k == "Call" and e.name in ("end", "cend"), "order", "%s.%s" % (short(f), n.name), n.loc(), "%s inserts a result in front of others" % short(f))
                elif n.name in ("push_back", "emplace_back"):
                    ctx.ok("order", "%s appends its results" % short(f))
            elif o is None and n.name in BADALG and n.d.get("fq", "").startswith("std::"):
                for a in n.args():
                    p = fp.of(a)
                    if p[:2] == LIST or p[0] == "L" and p[1] in rets:
                        ctx.bad("order", "%s.%s" % (short(f), n.name), n.loc(), "%s changes the order of what it hands out (%s)" % (short(f), n.name))
        strings(ctx, P, f, fp) if any(n.k == "Call" and n.name == "add_factor" for n in f.walk()) else None
    ctx.need("order", n_push, "places that extend the list of functions") if not ctx.viol else None


def build(ctx, P, f, fp, n):
    t = next((x for x in n.walk() if x.k == "Call" and x.name in ("make_tuple", "forward_as_tuple") or x.k == "Construct" and "tuple<" in x.t and len(x.args()) == 3), None)
    args = t.args() if t is not None else n.args()
    if len(args) != 3:
        ctx.notes.append("order: element built in %s not recognised" % short(f))
        return
    k, rec = fp.of(args[0]), fp.of(args[2])
    cl = [(l, loop_of(fp, l)) for l in loops(f) if l.k == "For" and inside(l, n)]
    cl = [(l, x) for l, x in cl if x is not None]
    if k[0] != "L" or not cl:
        ctx.notes.append("order: the loop that creates the functions in %s is not a counting loop" % short(f))
        return
    v = fp.decls.get(k[1])
    atom = "%s#%s" % (k[2], k[1])
    l, x = cl[0]
    if x[0] != atom and v is not None and v.init is not None:
        q = fp.of(v.init)
        if q[0] == "L":
            atom = "%s#%s" % (q[2], q[1])
    ctx.check(x[0] == atom, "order", "%s.index" % short(f), n.loc(), "%s gives a function another index than its position" % short(f))
    ctx.check(not x[1], "order", "%s.start" % short(f), l.loc(), "%s does not start with the first function" % short(f))
    q = pushes(fp, x[3], LIST)
    if q is not None:
        ctx.check(q == poly_one(), "order", "%s.one" % short(f), n.loc(), "%s does not add exactly one element per function" % short(f))
    # what else the function is given
    if rec[0] == "L":
        for c in x[3].walk():
            if rr(c) is None or fp.of(c.obj) != rec:
                continue
            for a in c.args():
                for y in a.walk():
                    s = subscript(y)
                    if s is None or re.match(r"^(const )?(unsigned |int|u?int|size_t|long)", strip(s[1]).t or "") is None:
                        continue
                    kp = fp.of(s[1])
                    if kp[0] != "L":
                        if subscript(s[0]) is None and not mentions(fp, s[1], x[0]) and fp.of(s[0])[0] == "this":
                            ctx.bad("own", "%s.%s" % (short(f), c.name), c.loc(), "%s gives every function the same entry, or one that is not its own (%s)" % (short(f), txt(a)[:60]))
                        continue
                    at = "%s#%s" % (kp[2], kp[1])
                    if at == x[0] or at == "%s#%s" % (k[2], k[1]):
                        ctx.ok("own", "%s: argument of %s belongs to the function" % (short(f), c.name))
                        continue
                    # an index of an inner dimension is fine
                    inner = subscript(s[0])
                    if inner is not None:
                        continue
                    ctx.bad("own", "%s.%s" % (short(f), c.name), c.loc(), "%s gives function %s what belongs to %s (%s)" % (short(f), k[2], kp[2], txt(a)[:60]))


def counters(ctx, P):
    """a counter that runs along with a loop over the functions"""
    for f in P.fns.values():
        if f.raw.get("body") is None or not scope(f) or not primary(f) or f.cfg is None:
            continue
        fp = Paths(f)
        for l in loops(f):
            if l.k != "ForRange" or not any(v.init is not None and fp.of(v.init)[:2] == LIST for x in l.c[1:2] if x is not None for v in x.vars):
                continue
            lv = l.c[0].vars[0] if l.c[0].vars else None
            if lv is None:
                continue
            declared = {v.d for x in l.walk() for v in x.vars}
            inc = set()
            for x in l.walk():
                if x.k == "Un" and x.op == "++" and strip(x.c[0]).k == "Ref" and strip(x.c[0]).d.get("d") in fp.decls and strip(x.c[0]).d["d"] not in declared:
                    inc.add(strip(x.c[0]).d["d"])
            keys = {}
            for x in l.walk():
                s = subscript(x)
                kk = None
                if s is not None:
                    kk = s[1]
                elif x.k == "Call" and x.obj is not None and x.name in ("emplace", "erase", "insert") and x.args():
                    kk = x.args()[0]
                kk = strip(kk) if kk is not None else None
                if kk is not None and kk.k == "Ref" and kk.d.get("d") in inc:
                    keys.setdefault(kk.d["d"], []).append(x)
            for d, uses in keys.items():
                one_counter(ctx, P, f, fp, l, lv, d, uses)


def one_counter(ctx, P, f, fp, l, lv, d, uses):
    ids = {u.id: u for u in uses}
    name = fp.decls[d].n
    scan = any(rr(n) in ("get_factors_ff", "accept_shift") for n in f.walk())
    if not scan:
        ctx.bad("own", "%s.%s" % (short(f), name), uses[0].loc(),
                "%s counts the functions that are left instead of using their index: once finished functions were taken, %s belongs to another one" % (short(f), name))
        return
    wrong = {}

    def tr(kind, n, s):
        if kind != "S":
            return s
        if is_exit(n):
            return None
        if n.k == "Decl":
            for v in n.vars:
                if v.d == d:
                    s = frozenset(["pre"]) if v.init is not None and strip(v.init).cv == 0 else frozenset(["?"])
                elif v.d == lv.d:
                    s = frozenset({"pre": "0", "inc": "0"}.get(x, "off") for x in s)
        elif n.k == "Un" and n.op == "++" and strip(n.c[0]).k == "Ref" and strip(n.c[0]).d.get("d") == d:
            s = frozenset({"0": "inc"}.get(x, "off") for x in s)
        elif n.k == "Assign" and strip(n.c[0]).k == "Ref" and strip(n.c[0]).d.get("d") == d:
            s = frozenset(["pre" if n.op == "=" and strip(n.c[1]).cv == 0 else "?"])
        elif n.id in ids and s - {"0", "?"}:
            wrong[n.id] = n
        return s
    forward(f, frozenset(["?"]), tr, lambda a, b: a | b)
    if wrong:
        n = sorted(wrong.values(), key=lambda x: x.loc())[0]
        ctx.bad("own", "%s.%s" % (short(f), name), n.loc(), "%s: %s is not the index of the function on every path: it is not advanced exactly once per function" % (short(f), name))
    else:
        for u in uses:
            ctx.ok("own", "%s: %s keeps pace with the functions (%s)" % (short(f), name, u.loc()))


def divided(ctx, P):
    """the values divided by parsed factors are those of the same function"""
    for f in P.fns.values():
        if f.raw.get("body") is None or not scope(f) or not primary(f):
            continue
        fp = Paths(f)
        src = {}
        for n in f.walk():
            for v in n.vars:
                if v.init is None:
                    continue
                for c in v.init.walk():
                    s = subscript(c)
                    if s is not None and fp.of(s[0]) == ("this", "parsed_factors"):
                        src[v.d] = s[1]
        if not src:
            continue
        for n in f.walk():
            if n.k == "Assign" and n.op == "/=":
                l, r = n.c
            elif n.k == "Call" and n.op == "/=" and len(n.args()) == 2:
                l, r = n.args()
            else:
                continue
            ks = [src[x.d["d"]] for x in r.walk() if x.k == "Ref" and x.d.get("d") in src]
            if not ks:
                continue
            idx = []
            x = strip(l)
            while True:
                s = subscript(x)
                if s is None:
                    break
                idx.append(s[1])
                x = strip(s[0])
            kp = fp.of(ks[0])
            ips = [fp.of(i) for i in idx]
            at = next(("%s#%s" % (p[2], p[1]) for p in reversed(ips) if p[0] == "L" and len(p) == 3), None)
            if at is not None and not mentions(fp, ks[0], at):
                ctx.bad("own", "%s.divide" % short(f), n.loc(), "%s divides the values of one function by the factors of another" % short(f))
                continue
            if kp[0] == "?" or not ips or any(p[0] == "?" for p in ips):
                ctx.notes.append("own: division by parsed factors in %s not resolved" % short(f))
                continue
            ctx.check(kp in ips, "own", "%s.divide" % short(f), n.loc(), "%s divides the values of one function by the factors of another" % short(f))


def scan_over(ctx, P):
    """the scans are over only when no function counts as done any more"""
    for f in P.fns.values():
        if f.raw.get("body") is None or not scope(f) or not primary(f) or f.cfg is None:
            continue
        fp = Paths(f)
        ends = {}
        for n in f.walk():
            a = assigned(n) if n.k in ("Assign", "Call") else None
            if a is not None and fp.of(a[0]) in (("this", "scan"), ("this", "factor_scan")) and strip(a[1]).cv in (0, False):
                ends[n.id] = n
        if not ends or not any(n.k == "Call" and n.name == "run_until_done" for n in f.walk()):
            continue
        good = set()
        for l in loops(f):
            if l.k == "ForRange" and l.c[1] is not None:
                rv = [v for v in l.c[1].vars if v.init is not None and fp.of(v.init)[:2] == LIST]
                body = l.c[2] if len(l.c) > 2 else None
                if rv:
                    for x in (body.c if body is not None and body.k == "Compound" else [body]):
                        if x is None:
                            continue
                        y = strip(x)
                        a = assigned(y) if y is not None and y.k in ("Assign", "Call") else None
                        if a is not None and state_of(a[1]) == "RECONSTRUCTING" and fp.of(a[0])[-1] == "<1>":
                            good.add(rv[0].d)
        bad = {}

        def tr(kind, n, s):
            if kind != "S":
                return s
            if is_exit(n):
                return None
            if n.k == "Call" and n.name == "run_until_done":
                return True
            if n.k == "Call" and n.obj is not None and fp.of(n.obj) == LIST and n.name == "clear":
                return False
            if n.k == "Decl" and any(v.d in good for v in n.vars):
                return False
            if n.id in ends and s:
                bad[n.id] = n
            return s
        forward(f, False, tr, lambda a, b: a or b)
        for i, n in ends.items():
            ctx.check(i not in bad, "refuse", "%s.over" % short(f), n.loc(), "%s ends the scan while functions may still count as done from it" % short(f))


def run(ctx):
    ctx.rule("gate", "the result of an element of the list is read only where the element is known to be done")
    ctx.rule("finished", "an element is marked as done, and RatReconst hands out a result, only where the function is known to be finished")
    ctx.rule("taken", "an element is given up only after its result was read")
    ctx.rule("refuse", "elements are handed out early only when no scan is under way, and a scan ends only when no element counts as done from it")
    ctx.rule("own", "results, factors, probes and settings are combined by the function's own index")
    ctx.rule("order", "the list of functions and the lists of results are built in ascending order, one entry per function")
    P = load(("flint",))["flint"]
    P.link()
    A = Facts(P, ctx)
    callers = P.callers()
    roots = []
    for f in P.fns.values():
        if f.raw.get("body") is None or f.cfg is None or not primary(f):
            continue
        if scope(f) and A.relevant(f):
            if not any(scope(g) and primary(g) for g, _ in callers.get(f.u, ())):
                roots.append(f)
        elif cls(f) == "RatReconst" and f.n == "get_result":
            roots.append(f)
    for f in roots:
        A.run(f, frozenset())
    for (rule, key, loc), (ok, msg, fn) in sorted(A.seen.items()):
        if ok:
            ctx.ok(rule, "%s (%s)" % (key, loc))
        else:
            ctx.bad(rule, key, loc, msg)
    if not ctx.viol:
        ctx.need("gate", sum(1 for k in A.seen if k[0] == "gate"), "places that read results")
        ctx.need("finished", sum(1 for k in A.seen if k[0] == "finished"), "places that mark functions as done")
    order(ctx, P)
    counters(ctx, P)
    divided(ctx, P)
    scan_over(ctx, P)
    ctx.notes.append("roots: %s" % ", ".join(sorted({short(f) for f in roots})))
