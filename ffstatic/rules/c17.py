"""C17: reset brings the process-wide state back to where it starts.

The process-wide state is enumerated: every static data member and namespace-scope
variable of the library that some function writes. For each, an interprocedural
forward dataflow over the reset (and over every constructor of the driver) computes
the value at the end; it has to be the value of the initialiser on every path of the
reset, or else every constructor of the driver has to set it anew."""
TECHNIQUE = "enumeration of mutable statics; interprocedural forward dataflow (abstract values) over reset and the constructors of the driver, compared with the initialisers"
NOTE = ("Process-wide means static storage of the library's own classes, namespaces and functions; files, environment and the state of user black boxes are not covered. "
        "Settings that only a setter the library never calls itself changes, and variables that only decide what is printed, are exempt. "
        "The values are those of containers being empty and of constants; everything else counts as unknown.")

import re
from ..core import *
from ..core import strip
from ..inter import Inter, leaf_cond, facts

LOCKS = ("mutex", "condition_variable", "std::thread", "once_flag", "atomic_flag")
INIT = ("init",)
TOP = ("?",)
EMPTY = ("empty",)
CONT = ("std::vector<", "std::unordered_set<", "std::unordered_map<", "std::set<", "std::map<", "std::list<", "std::deque<", "std::queue<", "std::basic_string<", "std::string")
READ = {"size", "empty", "begin", "end", "cbegin", "cend", "front", "back", "at", "find", "count", "data", "reserve", "capacity", "shrink_to_fit", "c_str"}
GROW = {"push_back", "emplace_back", "emplace", "insert", "push", "push_front"}


def container(t):
    return unconst(t).startswith(CONT)


def get(st, k, d=INIT):
    for a, b in st:
        if a == k:
            return b
    return d


def put(st, k, v):
    return frozenset([x for x in st if x[0] != k] + [(k, v)])


class Value(Inter):
    def __init__(self, P, keys):
        Inter.__init__(self, P)
        self.keys = keys

    def key(self, fr, n):
        p = fr.of(n)
        if p[0] == "S":
            return p[:2]
        if p[0] == "L":
            return p[:2]
        return None

    def is_event(self, n, fn):
        if n.k in ("Ref", "Member"):
            return (n.d.get("dk") == "global" or n.d.get("sm")) and n.d.get("q") in self.keys
        return False

    def relevant(self, g):
        return bool(g.lam) or Inter.relevant(self, g) or any(pv.t.strip().endswith(("&", "*")) and not pv.t.startswith("const ") for pv in g.params) or g.flag("static") or not g.recn

    def wants(self, kind, n, fn):
        if kind != "S":
            return False
        return n.k in ("Assign", "Call", "Decl", "Return") or n.k == "Un" and n.op in ("++", "--")

    def enter(self, fr, call, g, st):
        args = call.args()
        for pv, a in zip(g.params, args):
            st = put(st, ("L", pv.d), self.val(fr, a, st))
        return put(st, ("ret",), ("none",))

    def leave(self, fr, call, g, before, after):
        r = get(after, ("ret",), TOP)
        st = put(after, ("ret",), get(before, ("ret",), ("none",)))
        # the value of the call
        return put(st, ("call", fr.fn.u, call.id), r)

    def join(self, a, b):
        if a == b:
            return a
        da, db = dict(a), dict(b)
        out = []
        for k in set(da) | set(db):
            d = INIT if k[0] == "S" else TOP
            x, y = da.get(k, d), db.get(k, d)
            if k == ("ret",) and ("none",) in (x, y):
                v = x if y == ("none",) else y
            elif x == y:
                v = x
            elif k[0] == "S" and len(k) == 2:
                v = self.alt(x, y)
            else:
                v = TOP
            out.append((k, v))
        return frozenset(out)

    @staticmethod
    def alt(x, y):
        s = set()
        for v in (x, y):
            s |= set(v[1]) if v[0] == "or" else {v}
        return ("or", frozenset(s))

    def const_elem(self, n):
        """constant element of a constant table: primes()[0], table.front(), …"""
        n = strip(n)
        base, idx = None, None
        if n.k == "Sub":
            base, idx = n.c[0], n.c[1]
        elif n.k == "Call" and n.op == "[]":
            base, idx = n.args()
        elif n.k == "Call" and n.obj is not None and n.name in ("at", "front"):
            base = n.obj
            idx = n.args()[0] if n.args() else None
        if base is None:
            return None
        i = 0
        if idx is not None:
            x = strip(idx)
            if x is None or x.cv is None:
                return None
            i = int(x.cv)
        base = strip(base)
        il = None
        if base.k == "Call":
            g = self.P.callee(base)
            if g is None:
                return None
            for m in g.walk():
                for v in m.vars:
                    if v.init is not None:
                        il = il or next((y for y in v.init.walk() if y.k == "InitList" and len(y.c) > i), None)
        elif base.k in ("Ref", "Member"):
            gl = next((x for x in self.P.globals.values() if x.q == base.d.get("q") and x.const), None)
            if gl is not None and gl.init is not None:
                il = next((y for y in gl.init.walk() if y.k == "InitList" and len(y.c) > i), None)
        if il is None:
            return None
        e = il.c[i]
        v = e.cv if e.cv is not None else strip(e).cv
        if v is None and strip(e).k == "Int":
            v = strip(e).d.get("v")
        return None if v is None else ("c", int(v))

    def val(self, fr, n, st):
        if n is None:
            return TOP
        if n.cv is not None:
            return ("c", int(n.cv) if not isinstance(n.cv, bool) else int(n.cv))
        m = strip(n)
        if m is None:
            return TOP
        if m.cv is not None:
            return ("c", int(m.cv))
        if m.k == "Construct":
            a = [x for x in m.args() if x.k != "DefaultArg"]
            if container(m.t) or "initializer_list<" in m.t:
                if not a:
                    return EMPTY
                if len(a) == 1:
                    b = strip(a[0])
                    if b.k == "InitList" and not b.c or b.cv == 0 or b.k == "Construct" and not b.args():
                        return EMPTY
            elif len(a) == 1:
                return self.val(fr, a[0], st)
            return TOP
        if m.k in ("InitList", "ValueInit") and not m.c and container(m.t):
            return EMPTY
        e = self.const_elem(m)
        if e is not None:
            return e
        if m.k == "Call":
            return get(st, ("call", fr.fn.u, m.id), TOP)
        k = self.key(fr, m)
        if k is not None:
            p = fr.of(m)
            v = get(st, k, INIT if k[0] == "S" else TOP)
            if v == INIT and k[0] == "S":
                return TOP
            return v if len(p) == (2 if k[0] == "S" else 3) else TOP
        return TOP

    def uses(self, fr, n, k):
        return n is not None and any(self.key(fr, x) == k for x in n.walk() if x.k in ("Ref", "Member"))

    def set(self, fr, lhs, v, st, rhs=None):
        k = self.key(fr, lhs)
        if k is None:
            return st
        p = fr.of(lhs)
        whole = len(p) == (2 if k[0] == "S" else 3)
        if whole:
            return put(st, k, v)
        if k[0] == "S" and p[2:] == ("[]",):
            # one element: remember which, the whole counts as set when all are
            m = strip(lhs)
            i = m.c[1] if m.k == "Sub" else (m.args()[1] if m.k == "Call" and m.op == "[]" and len(m.args()) == 2 else None)
            i = strip(i) if i is not None else None
            if i is not None and i.cv is not None:
                st = put(st, k + (int(i.cv),), ("set",))
                return st
            if not (i is not None and i.k == "Ref" and get(st, k) == INIT):
                return put(st, k, ("part",))
            return put(st, k, ("part",))
        return put(st, k, ("part",)) if k[0] == "S" else put(st, k, TOP)

    def event(self, fr, kind, n, st):
        if kind == "exit":
            return st
        if kind != "S":
            return st
        if n.k == "Decl":
            for v in n.vars:
                if v.d is not None:
                    st = put(st, ("L", v.d), self.val(fr, v.init, st) if v.init is not None else (EMPTY if container(v.t) else TOP))
        elif n.k == "Return":
            st = put(st, ("ret",), self.val(fr, n.c[0], st) if n.c else ("none",))
        elif n.k == "Assign":
            v = self.val(fr, n.c[1], st) if n.op == "=" else TOP
            if n.op != "=" or self.uses(fr, n.c[1], self.key(fr, n.c[0])):
                v = ("self",) if v == TOP else v
            st = self.set(fr, n.c[0], v, st)
        elif n.k == "Un":
            st = self.set(fr, n.c[0], ("self",), st)
        elif n.k == "Call":
            if n.op == "=" and len(n.args()) == 2:
                l, r = n.args()
                st = self.set(fr, l, self.val(fr, r, st), st)
            elif n.op and n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">=") and n.args():
                st = self.set(fr, n.args()[0], ("self",), st)
            elif n.name in ("swap", "exchange") and (n.obj is not None or len(n.args()) == 2):
                ops = n.args() if n.obj is None else [n.obj] + n.args()
                if len(ops) >= 2:
                    va, vb = self.val(fr, ops[0], st), self.val(fr, ops[1], st)
                    st = self.set(fr, ops[0], vb, st)
                    if n.name == "swap":
                        st = self.set(fr, ops[1], va, st)
            elif n.obj is not None and container(n.obj.t):
                a = n.args()
                z = a and strip(a[0]) is not None and strip(a[0]).cv == 0
                if n.name == "clear" or n.name in ("resize", "assign") and z and (n.name == "resize" or len(a) == 2):
                    st = self.set(fr, n.obj, EMPTY, st)
                elif n.name == "erase" and len(a) == 2 and strip(a[0]).name in ("begin", "cbegin") and strip(a[1]).name in ("end", "cend"):
                    st = self.set(fr, n.obj, EMPTY, st)
                elif n.name in READ or n.d.get("const"):
                    pass
                elif n.name in GROW or n.name in ("erase", "resize", "assign", "pop_back", "pop", "pop_front"):
                    k = self.key(fr, n.obj)
                    if n.name in ("erase", "pop_back", "pop", "pop_front") and k is not None and get(st, k, INIT if k[0] == "S" else TOP) in (INIT, EMPTY):
                        # the initial value is that of an empty container
                        st = put(st, k, ("self",)) if get(st, k, TOP) != EMPTY else st
                    else:
                        st = self.set(fr, n.obj, TOP, st)
            elif self.P.callee(n) is None:
                # the address or a reference handed to somebody else
                for a in n.args():
                    x = strip(a)
                    if x is not None and x.k == "Un" and x.op == "&":
                        st = self.set(fr, x.c[0], TOP, st)
        return st

    def edge(self, fr, B, i, st):
        c = fr.fn.cfg.cond(B)
        if c is None or len(B.s) != 2:
            return st
        leaf, neg = leaf_cond(c)
        val = (i == 0) ^ neg
        for t, v in facts(leaf, val):
            t = strip(t)
            x = self.val(fr, t, st)
            if x[0] == "c":
                if bool(x[1]) != v:
                    return None
            if t.k == "Bin" and t.op in ("==", "!="):
                a, b = self.val(fr, t.c[0], st), self.val(fr, t.c[1], st)
                if a[0] == "c" and b[0] == "c" and ((a[1] == b[1]) == (t.op == "==")) != v:
                    return None
                # an equality that holds pins the value
                if (t.op == "==") == v:
                    for s, o in ((t.c[0], b), (t.c[1], a)):
                        k = self.key(fr, s)
                        if k is not None and k[0] == "S" and o[0] == "c" and len(fr.of(s)) == 2:
                            st = put(st, k, o)
            em = None
            if t.k == "Call" and t.obj is not None and t.name == "empty":
                em = (t.obj, v)
            elif t.k == "Call" and t.obj is not None and t.name == "size":
                em = (t.obj, not v)
            elif t.k == "Bin" and t.op in ("==", "!=", ">"):
                a, b = strip(t.c[0]), strip(t.c[1])
                if a.k == "Call" and a.obj is not None and a.name == "size" and b.cv == 0:
                    em = (a.obj, v == (t.op == "=="))
            if em is not None and em[1] and container(em[0].t):
                k = self.key(fr, em[0])
                if k is not None and k[0] == "S" and len(fr.of(em[0])) == 2:
                    st = put(st, k, EMPTY)
        return st


def initial(g, P):
    if container(g.t):
        i = g.init
        if i is None:
            return EMPTY
        i = strip(i)
        if i.k == "Construct":
            a = [x for x in i.args() if x.k != "DefaultArg"]
            if not a or len(a) == 1 and strip(a[0]).k == "InitList" and not strip(a[0]).c:
                return EMPTY
        if i.k in ("InitList", "ValueInit") and not i.c:
            return EMPTY
        return TOP
    if g.init is None:
        return ("zero",)
    v = g.init.cv if g.init.cv is not None else strip(g.init).cv
    return TOP if v is None else ("c", int(v))


def target(n):
    """what a node changes, if anything"""
    if n.k == "Assign":
        return n.c[0]
    if n.k == "Un" and n.op in ("++", "--"):
        return n.c[0]
    if n.k == "Call":
        if n.op and n.args() and (n.op in ("=", "++", "--") or n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">=")):
            return n.args()[0]
        if n.obj is not None and not n.d.get("const") and n.name not in READ and container(n.obj.t):
            return n.obj
    return None


def writers(P, q):
    """functions that change the variable: [(Fn, node)]"""
    out = []
    for f in P.fns.values():
        if f.raw.get("body") is None:
            continue
        pt = None
        for n in f.walk():
            t = target(n)
            if t is None:
                continue
            if pt is None:
                pt = Paths(f)
            p = pt.of(t)
            if p[0] == "S" and p[1] == q:
                out.append((f, n))
    return out


def setter(P, f, n, q):
    """a function whose only purpose is to store an argument, and that the library itself never calls"""
    if P.callers().get(f.u):
        return False
    r = n.c[1] if n.k == "Assign" else (n.args()[1] if n.k == "Call" and n.op == "=" and len(n.args()) == 2 else None)
    r = strip(r) if r is not None else None
    return r is not None and r.k == "Ref" and any(r.d.get("d") == pv.d for pv in f.params)


PRINT = ("operator<<", "operator+", "to_string", "endl", "flush")


def cosmetic(P, q):
    """read only to decide whether something is printed"""
    found = False
    for f in P.fns.values():
        if f.raw.get("body") is None:
            continue
        refs = [n for n in f.walk() if n.k in ("Ref", "Member") and n.d.get("q") == q]
        if not refs:
            continue
        okay = set()
        for m in f.walk():
            if m.k == "If":
                c = [x for x in m.c[0].walk() if x.k in ("Ref", "Member") and x.d.get("q") == q]
                if not c:
                    continue
                for b in m.c[1:]:
                    if b is None:
                        continue
                    for x in b.walk():
                        if x.k == "Call" and not (x.op in ("<<", "+", "=") or x.name in PRINT or x.op == "!"):
                            return False
                        t = target(x)
                        if t is not None and not any(y.d.get("q") == q for y in t.walk() if y.k in ("Ref", "Member")):
                            return False
                        if x.k in ("Return", "Break", "Continue", "Throw"):
                            return False
                    okay |= {x.id for x in b.walk()}
                okay |= {x.id for x in c}
                found = True
        for n in f.walk():
            t = target(n)
            if t is not None:
                okay |= {x.id for x in t.walk()}
        if any(r.id not in okay for r in refs):
            return False
    return found


def show(v):
    if v == INIT:
        return "left as it is"
    if v == EMPTY:
        return "empty"
    if v[0] == "c":
        return str(v[1])
    if v[0] == "or":
        return " or ".join(sorted(show(x) for x in v[1]))
    if v[0] == "self":
        return "changed from what it was"
    if v[0] == "part":
        return "partly overwritten"
    return "something else"


def one(ctx, cfg):
    P = load((cfg,))[cfg]
    P.link()
    glob = {}
    for g in P.globals.values():
        if g.const or any(x in g.t for x in LOCKS):
            continue
        if not g.q.startswith("firefly::"):
            continue
        glob.setdefault(g.q, g)
    # function-local statics
    local = 0
    for f in P.fns.values():
        if f.raw.get("body") is None:
            continue
        for n in f.walk():
            for v in n.vars:
                if (v.raw.get("st") or v.raw.get("static")) and "firefly" in f.q:
                    local += 1
                    if v.t.startswith("const ") or any(x in v.t for x in LOCKS):
                        continue
                    pt = Paths(f)
                    for m in f.walk():
                        t = target(m)
                        if t is not None and pt.of(t)[:2] == ("L", v.d):
                            ctx.bad("reset", "%s.%s" % (f.q.replace("firefly::", ""), v.n), m.loc(),
                                    "%s keeps %s from one call to the next in a static variable that no reset can bring back" % (f.q.replace("firefly::", ""), v.n))
                            break
    resets = [f for f in P.fns.values() if f.n == "reset" and f.flag("static") and f.recn and f.recn.split("::")[-1] == "RatReconst" and f.cfg is not None]
    if not resets:
        ctx.notes.append("%s: no reset of RatReconst" % cfg)
        ctx.bad("reset", "RatReconst::reset", "source/RatReconst.cpp", "there is no reset any more")
        return
    ctors = [f for f in P.fns.values() if f.kind == "ctor" and f.recn and f.recn.split("<")[0].split("::")[-1] == "Reconstructor" and f.cfg is not None and not f.raw.get("copy") and not f.flag("implicit")]
    keys = set(glob)
    An = Value(P, keys)
    rs, rs2 = [], []
    for f in resets:
        st = frozenset()
        for pv in f.params:
            if unconst(pv.t) == "bool":
                st = put(st, ("L", pv.d), ("c", 1))
        rs.append((f, An.run(f, st)))
        off = frozenset([(("L", pv.d), ("c", 0)) for pv in f.params if unconst(pv.t) == "bool"])
        if off:
            rs2.append((f, An.run(f, off)))
    cs = [(f, An.run(f, frozenset())) for f in ctors]
    done = 0
    for q, g in sorted(glob.items()):
        ws = [(f, n) for f, n in writers(P, q)]
        if not ws:
            continue
        eff = [(f, n) for f, n in ws if not setter(P, f, n, q)]
        if not eff:
            ctx.ok("option", "%s is only changed by %s" % (q, ", ".join(sorted({f.q for f, _ in ws}))))
            continue
        if cosmetic(P, q):
            ctx.ok("option", "%s only decides what is printed" % q)
            continue
        k = ("S", q)
        iv = initial(g, P)
        bad = []
        # without the change of the field, everything else is reset all the same
        for f, s in rs + ([] if "FFInt::" in q else rs2):
            if s is None:
                bad.append((f, ("none",)))
                continue
            v = get(s, k)
            alts = set(v[1]) if v[0] == "or" else {v}
            if alts != {iv}:
                bad.append((f, v))
        if not bad:
            done += 1
            ctx.ok("reset", "%s is %s again after %s" % (q, show(iv), ", ".join(f.q for f, _ in rs)))
            continue

        def renewed(s):
            if s is None:
                return True
            v = get(s, k)
            alts = set(v[1]) if v[0] == "or" else {v}
            if not (alts & {INIT, ("self",), ("part",)}):
                return True
            m = re.search(r"\[(\d+)\]$", g.t)
            return bool(m) and all(get(s, k + (i,), None) == ("set",) for i in range(int(m.group(1))))
        wrong = [v for _, v in bad for x in (set(v[1]) if v[0] == "or" else {v}) if x[0] == "c" and iv[0] == "c" and x != iv]
        if not wrong and cs and all(renewed(s) for _, s in cs):
            done += 1
            ctx.ok("renew", "%s is set anew by every constructor of the driver" % q)
            continue
        f, v = bad[0]
        ctx.bad("reset", q.replace("firefly::", ""), f.loc(),
                "%s, which %s changes, starts as %s, but after %s it is %s; a later reconstruction in the same process begins with it" %
                (q, ", ".join(sorted({x.q.replace("firefly::", "") for x, _ in eff if x not in resets}))[:120] or "a reset", show(iv), f.q.replace("firefly::", ""), show(v)))
    ctx.need("reset", done, "process-wide variables that are reset or renewed") if not ctx.viol else None
    ctx.notes.append("%s: %d mutable statics, %d function-local statics, %d constructors of the driver" % (cfg, len(glob), local, len(cs)))


def run(ctx):
    ctx.rule("reset", "on every path of RatReconst::reset every process-wide variable the library changes gets the value of its initialiser")
    ctx.rule("renew", "or else every constructor of the driver sets it anew")
    ctx.rule("option", "exempt: settings changed by a setter the library never calls, and variables that only decide what is printed")
    for cfg in ("default", "flint"):
        one(ctx, cfg)
