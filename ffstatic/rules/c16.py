"""C16: user-written copy/move operations carry every member over.

Forward dataflow over the clang CFG of every user-written special member. The
abstract state maps each member of *this (and each local) to the set of places
its value may come from; helpers are analysed in the context of the call."""
TECHNIQUE = "forward dataflow (member provenance) over the clang CFG of every user-written copy/move operation"
NOTE = ("Sound for member-to-member provenance in straight user code; trusts that the copy/move of each member's own type is right "
        "(defaulted or checked itself). Locks and the transient flag is_interpolating are exempt.")

from ..core import *
from ..core import strip

LOCK_TYPES = ("mutex", "condition_variable", "std::thread", "std::once_flag")
TRANSIENT = {"is_interpolating"}      # set only while a call to interpolate() is running
TOP = "TOP"
INIT = "INIT"
READONLY = {"size", "empty", "begin", "end", "cbegin", "cend", "front", "back", "at", "find", "count", "data", "get", "capacity"}


def exempt(f, cls_missing):
    return any(x in f["t"] for x in LOCK_TYPES) or f["n"] in TRANSIENT


class Carry:
    def __init__(self, prog, same):
        self.P = prog
        self.same = same      # analyse under the assumption that both operands are the same object
        self.depth = 0

    def run(self, fn, env, st):
        """returns the joined exit state (dict) or None if the function never returns"""
        self.depth += 1
        try:
            if self.depth > 6 or fn.cfg is None:
                return dict(st, **{"*": frozenset([TOP])})
            P = Paths(fn, env)
            tr = lambda kind, pl, s: self.transfer(fn, P, env, kind, pl, s)
            ed = lambda B, i, s: self.edge(fn, P, B, i, s)
            inn = forward(fn, self.freeze(st), tr, self.join, ed)
            ex = inn.get(fn.cfg.exit)
            return None if ex is None else dict(ex)
        finally:
            self.depth -= 1

    @staticmethod
    def freeze(st):
        return tuple(sorted(st.items(), key=repr))

    def join(self, a, b):
        a, b = dict(a), dict(b)
        out = {}
        for k in set(a) | set(b):
            d = frozenset([INIT]) if k[0] == "this" else frozenset([TOP])
            out[k] = a.get(k, d) | b.get(k, d)
        return self.freeze(out)

    def edge(self, fn, P, B, i, s):
        c = fn.cfg.cond(B)
        if c is None or len(B.s) != 2:
            return s
        neg = False
        c = strip(c)
        while c is not None and c.k == "Un" and c.op == "!":
            neg = not neg
            c = strip(c.c[0])
        if c is not None and c.k == "Bin" and c.op in ("==", "!="):
            ps = {P.of(c.c[0]), P.of(c.c[1])}
            if ps == {("this",), ("other",)}:
                is_same = (c.op == "==") ^ neg
                taken_same = is_same if i == 0 else not is_same
                if taken_same != self.same:
                    return None
        return s

    def val(self, fn, P, n, st):
        n = strip(n)
        if n is None:
            return frozenset([TOP])
        p = P.of(n)
        if p[0] == "other":
            return frozenset([p[:2]]) if len(p) >= 2 else frozenset([("other",)])
        if p[0] == "this" and len(p) >= 2:
            return st.get(p[:2], frozenset([INIT]))
        if p[0] == "L":
            v = st.get(("L", p[1]))
            if v is not None:
                if v == frozenset([("other",)]) and len(p) > 3:
                    return frozenset([("other", p[3])])
                return v
        if n.k == "Construct" and len(n.args()) == 1:
            return self.val(fn, P, n.args()[0], st)
        if n.k == "Construct" and len(n.args()) >= 2:
            vs = {self.val(fn, P, a, st) for a in n.args()[:2]}
            if len(vs) == 1:
                return next(iter(vs))
        return frozenset([TOP])

    def transfer(self, fn, P, env, kind, pl, s):
        st = dict(s)
        if kind == "S":
            n = pl
            if is_exit(n):
                return None
            if n.k == "Decl":
                for v in n.vars:
                    if v.init is not None:
                        st[("L", v.d)] = self.val(fn, P, v.init, st)
            elif n.k == "Assign" or (n.k == "Call" and n.op == "=" and len(n.args()) == 2):
                l, r = (n.c[0], n.c[1]) if n.k == "Assign" else n.args()
                lp = P.of(l)
                if n.k == "Assign" and n.op != "=":
                    v = frozenset([TOP])
                else:
                    v = self.val(fn, P, r, st)
                if lp[0] == "this" and len(lp) >= 2:
                    moved = self.is_move(n, r)
                    if self.same and moved:
                        v = frozenset([("selfmove", lp[1])])
                    st[lp[:2]] = v
                elif lp[0] == "this" and len(lp) == 1:
                    for k in list(st):
                        if k[0] == "this":
                            st.pop(k)
                    if v == frozenset([("other",)]):
                        st[("this*",)] = v
                elif lp[0] == "L":
                    st[("L", lp[1])] = v
                elif lp[0] == "other" and len(lp) >= 2 and not self.same:
                    pass
            elif n.k == "Call" and n.name == "swap" and (len(n.args()) == 2 or n.obj is not None):
                ops = n.args() if n.obj is None else [n.obj] + n.args()
                a, b = ops[0], ops[1]
                pa, pb = P.of(a), P.of(b)
                va, vb = self.val(fn, P, a, st), self.val(fn, P, b, st)
                for p, v in ((pa, vb), (pb, va)):
                    if p[0] == "this" and len(p) >= 2:
                        st[p[:2]] = v
                    elif p[0] == "L":
                        st[("L", p[1])] = v
            elif n.k == "Call" and n.obj is not None and P.of(n.obj)[0] == "this" and len(P.of(n.obj)) >= 2:
                p = P.of(n.obj)
                if n.name in ("assign", "insert") and n.args():
                    vs = {self.val(fn, P, a, st) for a in n.args() if P.of(a)[0] == "other"}
                    st[p[:2]] = next(iter(vs)) if len(vs) == 1 else frozenset([TOP])
                elif n.name in ("push_back", "emplace_back", "emplace", "fill", "push"):
                    vs = {self.val(fn, P, a, st) for a in n.args()}
                    st[p[:2]] = next(iter(vs)) if len(vs) == 1 else frozenset([TOP])
                elif n.name in READONLY or n.name == "reserve" or n.d.get("const") or any(x in n.obj.t for x in LOCK_TYPES):
                    pass
                elif self.P.callee(n) is None:
                    if n.name in ("clear", "resize") and self.val(fn, P, n.obj, st) == frozenset([INIT]) and not self.same:
                        pass
                    else:
                        st[p[:2]] = frozenset([TOP])
            if n.k == "Call":
                g = self.P.callee(n)
                if g is not None:
                    e2 = {}
                    rel = False
                    if n.obj is not None:
                        e2["this"] = P.of(n.obj)
                        rel = rel or e2["this"][0] in ("this", "other")
                    args = n.args()
                    for pv, a in zip(g.params, args):
                        ap = P.of(a)
                        e2[pv.d] = ap
                        rel = rel or ap[0] in ("this", "other")
                    if g.lam:
                        rel = True
                        e2 = dict(env, **e2)
                    if rel and not (n.d.get("const") and not g.lam):
                        sub = self.run(g, e2, {k: v for k, v in st.items()})
                        if sub is None:
                            return None
                        st = sub
        elif kind == "I":
            m, nid = pl[1], pl[2]
            ini = next((x for x in fn.inits if x[0] == m), None)
            if ini is not None and ini[3] is not None and ini[2]:
                st[("this", ini[1])] = self.val(fn, P, ini[3], st)
            elif ini is None:
                for x in fn.inits:
                    if x[4] is not None and x[3] is not None and x[2]:
                        a = [y for y in x[3].args()] if x[3].k == "Construct" else [x[3]]
                        if a and P.of(a[0]) == ("other",) or x[3] is not None and P.of(x[3]) == ("other",):
                            st[("base", x[4])] = frozenset([("other",)])
                    if x[0] is None and x[4] is None and x[3] is not None and fn.flag("kind"):
                        pass
        return self.freeze(st)

    @staticmethod
    def is_move(n, r):
        if n.k == "Call":
            pt = n.pt
            if pt and pt[-1].endswith("&&"):
                return True
        return False


def special(P):
    for f in P.fns.values():
        if (f.flag("copy") or f.flag("move")) and not f.flag("defaulted") and not f.flag("deleted") and not f.flag("implicit") and f.raw.get("body"):
            yield f


def run(ctx):
    ctx.rule("carry", "at every exit of a user-written copy/move operation each data member holds the source's same member")
    ctx.rule("self", "with both operands the same object, a user-written assignment leaves every member as it was")
    ctx.rule("base", "a user-written copy/move constructor/assignment of a derived class forwards the source to its base")
    progs = load(("default", "mpi") if ctx.thorough else ("default",))
    seen = set()
    for P in progs.values():
        recs = P.recs
        for f in special(P):
            if (f.file, f.line, f.rec) in seen:
                continue
            seen.add((f.file, f.line, f.rec))
            r = recs.get(f.rec)
            if r is None or not f.params:
                continue
            nm = "%s::%s(%s)" % (r.n, f.n, "move" if f.flag("move") else "copy")
            env = {f.params[0].d: ("other",)}
            if any(i[0] is None and i[4] is None and i[3] is not None for i in f.inits):
                # delegating constructor: to another special member or to one we then analyse as body
                pass
            C = Carry(P, same=False)
            st = C.run(f, env, {})
            if st is None:
                st = {}
            miss = [fd for fd in r.fields if st.get(("this", fd["n"]), frozenset([INIT])) != frozenset([("other", fd["n"])])]
            whole = st.get(("this*",)) == frozenset([("other",)])
            for fd in r.fields:
                if exempt(fd, miss):
                    continue
                v = st.get(("this", fd["n"]), frozenset([INIT]))
                good = whole or v == frozenset([("other", fd["n"])])
                ctx.check(good, "carry", "%s.%s" % (nm, fd["n"]), f.loc(),
                          "member '%s' of %s is not carried over from the source on every path (it may hold: %s)" % (
                              fd["n"], r.n, ", ".join(sorted(map(show, v)))))
            if f.n == "operator=":
                C = Carry(P, same=True)
                st = C.run(f, env, {}) or {}
                for fd in r.fields:
                    if exempt(fd, miss):
                        continue
                    v = st.get(("this", fd["n"]), frozenset([INIT]))
                    good = all(x in (INIT, ("other", fd["n"])) for x in v)
                    ctx.check(good, "self", "%s.%s" % (nm, fd["n"]), f.loc(),
                              "self-assignment may change member '%s' (%s)" % (fd["n"], ", ".join(sorted(map(show, v)))))
            for b in r.bases:
                br = recs.get(b)
                if br is None or not (br.fields):
                    continue
                fw = any(k[0] == "base" for k in st) or any(
                    n.k == "Call" and n.name == "operator=" or (n.k == "Call" and n.op == "=") for n in f.walk() if n.d.get("qual"))
                ctx.check(fw, "base", nm, f.loc(), "the source is not forwarded to base class %s" % br.n)
    ctx.need("carry", ctx.n("carry"), "user-written special members")
    ctx.assume.append("mutexes, condition variables and the transient flag is_interpolating (only true during a running interpolate call) are not part of the copied state")


def show(x):
    if x == INIT:
        return "its previous/default value"
    if x == TOP:
        return "some other value"
    if x[0] == "selfmove":
        return "the moved-from remains of itself"
    return "source." + x[1] if len(x) > 1 else "source"
