"""Structured abstract interpreter over the clang AST in a term domain.

One pass over each statement (no unrolling of unbounded loops), joins at merges,
constant conditions pruned. Values are hashable terms; lvalues are a root plus
accessors so that aliases, pairs, stacks and arrays are followed exactly where
possible and otherwise collapse to TOP."""
from .core import *
from .core import strip

TOP = ("top",)
TRUE = ("c", 1)
FALSE = ("c", 0)


class Undecided(Exception):
    pass


def c(v):
    return ("c", v)


# ------------------------------------------------------------ linear integers
def lin(v):
    """(dict sym->coef, const) or None"""
    if v[0] == "c":
        return {}, v[1]
    if v[0] == "lin":
        return dict(v[1]), v[2]
    if v[0] in ("sym", "at", "size", "call", "var"):
        return {v: 1}, 0
    return None


def mklin(d, k):
    d = {s: x for s, x in d.items() if x}
    if not d:
        return c(k)
    if k == 0 and len(d) == 1:
        (s, x), = d.items()
        if x == 1:
            return s
    return ("lin", tuple(sorted(d.items(), key=repr)), k)


def ladd(a, b, sgn=1):
    x, y = lin(a), lin(b)
    if x is None or y is None:
        return None
    d = dict(x[0])
    for s, v in y[0].items():
        d[s] = d.get(s, 0) + sgn * v
    return mklin(d, x[1] + sgn * y[1])


# ------------------------------------------------------------ field terms
def mneg(t):
    if t[0] == "neg":
        return t[1]
    if t[0] == "val":
        return ("val", {"": "-", "+": "-", "-": ""}[t[1]], t[2])
    if t[0] == "fld" and t[1] == c(0):
        return t
    if t[0] == "prod":
        # pull the sign of the first negative factor out
        return ("neg", t)
    return ("neg", t)


def minv(t):
    if t[0] == "inv":
        return t[1]
    if t[0] == "neg":
        return mneg(minv(t[1]))
    if t == ("fld", c(1)):
        return t
    return ("inv", t)


def mmul(a, b):
    fs = []
    neg = False
    for t in (a, b):
        if t[0] == "neg":
            neg = not neg
            t = t[1]
        if t[0] == "prod":
            fs += list(t[1])
        elif t == ("fld", c(1)):
            pass
        else:
            fs.append(t)
    # cancel x * inv x is not done (zero)
    fs.sort(key=repr)
    r = ("fld", c(1)) if not fs else fs[0] if len(fs) == 1 else ("prod", tuple(fs))
    return mneg(r) if neg else r


def mdiv(a, b):
    return mmul(a, minv(b))


def madd(a, b):
    ts = []
    for t in (a, b):
        if t[0] == "sum":
            ts += list(t[1])
        elif t == ("fld", c(0)):
            pass
        else:
            ts.append(t)
    ts.sort(key=repr)
    return ("fld", c(0)) if not ts else ts[0] if len(ts) == 1 else ("sum", tuple(ts))


def msub(a, b):
    if b[0] == "sum":
        r = a
        for t in b[1]:
            r = madd(r, mneg(t))
        return r
    return madd(a, mneg(b))


def mpow(a, b):
    if b[0] == "negint":
        return minv(("pow", a, b[1]))
    return ("pow", a, b)


# ------------------------------------------------------------ interpreter
class State:
    __slots__ = ("m",)

    def __init__(self, m=None):
        self.m = dict(m or {})

    def copy(self):
        return State(self.m)


class AI:
    """Subclass and override call_model / initial / cond_model."""

    def __init__(self, P):
        self.P = P
        P.link()
        self.depth = 0
        self.fresh = 0
        self.active = []
        self.havoced = {}

    # ---- hooks
    def initial(self, root, t, n):
        """value of something never written so far"""
        return ("sym", root[-1] if isinstance(root[-1], str) else str(root))

    def call_model(self, fr, n, st):
        """value (or (value, lvalue)) of a call, or NotImplemented"""
        return NotImplemented

    def loop_model(self, fr, n, st):
        """handle a loop statement: returns outcome dict or None for the default"""
        return None

    # ---- frames: fr = dict(fn=..., this=lvalue, refs={decl: lvalue}, ret=[...])
    def frame(self, fn, this=None, refs=None, up=None):
        return dict(fn=fn, this=this, refs=dict(refs or {}), up=up)

    # ---- lvalues: (root, accs)
    def lv(self, fr, n, st):
        n0 = n
        while n is not None and n.k == "Cast":
            n = n.c[0]
        if n is None:
            return None
        k = n.k
        if k == "Construct" and (n.d.get("copy") or n.d.get("move")) and n.args():
            return self.lv(fr, n.args()[0], st)
        if k == "This":
            return fr["this"] or (("this",), ())
        if k == "Ref":
            d = n.d["d"]
            f = fr
            while f is not None:
                if d in f["refs"]:
                    return f["refs"][d]
                f = f["up"]
            if n.d.get("dk") == "global":
                return (("S", n.d["q"]), ())
            if n.d.get("dk") in ("enum", "func"):
                return None
            return (("L", d, n.name), ())
        if k == "Member":
            if n.d.get("sm"):
                return (("S", n.d["q"]), ())
            b = self.lv(fr, n.c[0], st)
            if b is None:
                v = self.ev(fr, n.c[0], st)
                b = self.temp(st, v)
            return self.acc(b, ("f", n.name), st)
        if k == "Un" and n.op == "*" and strip(n.c[0]) is not None and strip(n.c[0]).k == "This":
            return self.lv(fr, n.c[0], st)
        if k == "Un" and n.op == "*":
            b = self.lv(fr, n.c[0], st)
            if b is None:
                return None
            v = self.read(st, b, n.c[0])
            if v[0] == "ptr":
                return v[1]
            if v[0] == "iter":
                return (v[1][0], v[1][1] + (("elem",),))
            return self.acc(b, ("deref",), st)
        if k == "Sub":
            b = self.base(fr, n.c[0], st)
            i = self.ev(fr, n.c[1], st)
            return None if b is None else self.acc(b, ("i", i), st)
        if k == "Un" and n.op in ("++", "--") and not n.d.get("post"):
            self.ev(fr, n, st)
            return self.lv(fr, n.c[0], st)
        if k == "Assign":
            self.ev(fr, n, st)
            return self.lv(fr, n.c[0], st)
        if k == "Cond":
            v = self.ev(fr, n.c[0], st)
            t = self.truth(v)
            if t is not None:
                return self.lv(fr, n.c[1] if t else n.c[2], st)
            return None
        if k == "Call":
            a = n.args()
            if n.op == "[]" and a and self.P.callee(n) is None:
                b = self.lv(fr, a[0], st)
                if b is None:
                    b = self.temp(st, self.ev(fr, a[0], st))
                return self.acc(b, ("i", self.ev(fr, a[1], st)), st)
            if n.op in ("*", "->") and len(a) == 1:
                v = self.ev(fr, a[0], st)
                if v[0] == "iter":
                    return (v[1][0], v[1][1] + (("elem",),))
                if v[0] == "ptr":
                    return v[1]
                b = self.lv(fr, a[0], st)
                return None if b is None else self.acc(b, ("deref",), st)
            if n.obj is not None and n.name in ("at", "front", "back", "top") and self.P.callee(n) is None:
                b = self.lv(fr, n.obj, st)
                if b is None:
                    b = self.temp(st, self.ev(fr, n.obj, st))
                if n.name == "at":
                    return self.acc(b, ("i", self.ev(fr, a[0], st)), st)
                if n.name == "front":
                    return self.acc(b, ("i", c(0)), st)
                return self.acc(b, ("back",), st)
            if n.obj is not None and n.name == "get" and not a:
                return self.lv(fr, n.obj, st)
            if n.d.get("fq", "").startswith("std::get") and a:
                b = self.lv(fr, a[0], st)
                i = targ_index(n)
                return None if b is None else self.acc(b, ("f", {"0": "first", "1": "second"}.get(i, "<%s>" % i) if "pair" in a[0].t else "<%s>" % i), st)
            if n.d.get("fq", "").startswith("std::") and n.name in ("move", "forward", "ref") and len(a) == 1:
                return self.lv(fr, a[0], st)
            if n.op and (n.op == "=" or n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">=")) and a:
                self.ev(fr, n, st)
                return self.lv(fr, a[0], st)
            g = self.P.callee(n)
            if g is not None and g.ret.endswith("&"):
                r = self.inline(fr, n, g, st, want_lv=True)
                if r is not None and isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], tuple) and isinstance(r[0], tuple):
                    return r
            return None
        return None

    def base(self, fr, n, st):
        """lvalue of the array a pointer/array expression designates"""
        n = strip(n)
        b = self.lv(fr, n, st)
        if b is None:
            v = self.ev(fr, n, st)
            if v[0] == "ptr":
                return v[1]
            return None
        v = self.read(st, b, n) if n.t.endswith("*") else None
        if v is not None and v[0] == "ptr":
            return v[1]
        return b

    def acc(self, b, a, st):
        return (b[0], b[1] + (a,))

    def temp(self, st, v):
        self.fresh += 1
        r = ("T", self.fresh)
        st.m[r] = v
        return (r, ())

    # ---- memory
    def project(self, v, a):
        k = v[0]
        if k == "top":
            return TOP
        if k == "pair" and a[0] == "f" and a[1] in ("first", "second"):
            return v[1] if a[1] == "first" else v[2]
        if k == "rec" and a[0] == "f":
            for n, x in v[2]:
                if n == a[1]:
                    return x
            return ("at", v[1], a)
        if k == "vec":
            if a[0] == "back":
                return v[2][-1] if v[2] else TOP
            if a[0] == "i":
                if v[1] is None and a[1][0] == "c":
                    return v[2][a[1][1]] if 0 <= a[1][1] < len(v[2]) else TOP
                return TOP if v[2] else ("at", ("sym", v[1]), a)
            return TOP
        if k == "arr":
            if a[0] == "i":
                for i, x in v[2]:
                    if i == a[1]:
                        return x
                for i, x in v[2]:
                    d = ladd(i, a[1], -1)
                    if d is None or d[0] != "c":
                        return TOP
                return ("at", v[1], a)
            return ("at", v[1], a)
        if k == "map":
            # elementwise image of a container
            if a[0] in ("i", "elem"):
                return self.subst(v[2], ("elemof", v[1]), self.project(v[1], a))
        if k == "fld" and a == ("f", "n"):
            return v[1]
        return ("at", v, a)

    def subst(self, t, x, y):
        if t == x:
            return y
        if isinstance(t, tuple):
            return tuple(self.subst(z, x, y) for z in t)
        return t

    def update(self, v, accs, new):
        if not accs:
            return new
        a = accs[0]
        if v[0] == "top":
            return TOP
        if v[0] == "pair" and a[0] == "f":
            if a[1] == "first":
                return ("pair", self.update(v[1], accs[1:], new), v[2])
            if a[1] == "second":
                return ("pair", v[1], self.update(v[2], accs[1:], new))
        if v[0] == "vec" and a[0] == "back":
            if not v[2]:
                return TOP
            return ("vec", v[1], v[2][:-1] + (self.update(v[2][-1], accs[1:], new),)) + v[3:]
        if v[0] == "vec" and v[1] is None and a[0] == "i" and a[1][0] == "c" and 0 <= a[1][1] < len(v[2]):
            i = a[1][1]
            return ("vec", None, v[2][:i] + (self.update(v[2][i], accs[1:], new),) + v[2][i + 1:]) + v[3:]
        if a[0] == "i":
            if v[0] != "arr":
                if v[0] in ("sym", "at", "call"):
                    v = ("arr", v, ())
                else:
                    return TOP
            old = self.project(v, a)
            cells = []
            for i, x in v[2]:
                if i == a[1]:
                    continue
                d = ladd(i, a[1], -1)
                if d is None or d[0] != "c":
                    return TOP
                cells.append((i, x))
            cells.append((a[1], self.update(old, accs[1:], new)))
            return ("arr", v[1], tuple(sorted(cells, key=repr)))
        if a[0] == "f":
            if v[0] != "rec":
                v = ("rec", v, ())
            old = self.project(v, a)
            fs = [(n, x) for n, x in v[2] if n != a[1]]
            fs.append((a[1], self.update(old, accs[1:], new)))
            return ("rec", v[1], tuple(sorted(fs)))
        return TOP

    def root_val(self, st, root, n=None):
        v = st.m.get(root)
        if v is None:
            v = self.initial(root, n.t if n is not None else "", n)
            st.m[root] = v
        return v

    def read(self, st, l, n=None):
        root, accs = l
        # members of *this are separate roots
        if root == ("this",) and accs and accs[0][0] == "f":
            root, accs = ("this", accs[0][1]), accs[1:]
        v = self.root_val(st, root, n if not accs else None)
        for a in accs:
            v = self.project(v, a)
        return v

    def write(self, st, l, val):
        if l is None:
            return
        root, accs = l
        if root == ("this",) and accs and accs[0][0] == "f":
            root, accs = ("this", accs[0][1]), accs[1:]
        if not accs:
            st.m[root] = val
        else:
            st.m[root] = self.update(self.root_val(st, root), accs, val)

    # ---- values
    def truth(self, v):
        if v[0] == "c":
            return bool(v[1])
        return None

    def isfield(self, t):
        t = unconst(t).strip(" &")
        return t in ("firefly::FFInt",) or t.startswith("firefly::FFIntVec<")

    def binop(self, op, a, b, t=""):
        if a == TOP or b == TOP:
            return TOP
        if op in ("==", "!="):
            if a == b:
                return TRUE if op == "==" else FALSE
            d = ladd(a, b, -1)
            if d is not None and d[0] == "c":
                return c(int((d[1] == 0) == (op == "==")))
            if a[0] == "str" and b[0] == "str":
                return c(int((a[1] == b[1]) == (op == "==")))
            x, y = sorted((a, b), key=repr)
            return ("cmp", op, x, y)
        if op in ("<", ">", "<=", ">="):
            d = ladd(a, b, -1)
            if d is not None and d[0] == "c":
                k = d[1]
                return c(int({"<": k < 0, ">": k > 0, "<=": k <= 0, ">=": k >= 0}[op]))
            if op in (">", ">="):
                return ("cmp", {">": "<", ">=": "<="}[op], b, a)
            return ("cmp", op, a, b)
        if op == "+":
            r = ladd(a, b)
            if r is not None:
                return r
        if op == "-":
            r = ladd(a, b, -1)
            if r is not None:
                return r
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            try:
                r = {"*": lambda: x * y, "/": lambda: abs(x) // abs(y) * (1 if x * y >= 0 else -1), "%": lambda: x - y * int(x / y) if abs(x) < 2 ** 50 else x % y, "<<": lambda: x << y, ">>": lambda: x >> y,
                     "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y}[op]()
                return c(r)
            except (KeyError, ZeroDivisionError):
                pass
        return ("bin", op, a, b)

    def fieldop(self, op, a, b):
        if a == TOP or b == TOP:
            return TOP
        return {"+": madd, "-": msub, "*": mmul, "/": mdiv}[op](a, b)

    def ev(self, fr, n, st):
        if n is None:
            return TOP
        k = n.k
        if k == "Cast":
            v = self.ev(fr, n.c[0], st) if n.c else TOP
            if n.cv is not None and v[0] not in ("c",):
                return c(n.cv)
            return v
        if n.cv is not None:
            return c(n.cv)
        if k == "Str":
            return ("str", n.d["v"])
        if k in ("Ref", "Member", "This", "Sub"):
            if k == "Ref" and n.d.get("dk") == "func":
                return ("fn", n.d.get("q"))
            l = self.lv(fr, n, st)
            return TOP if l is None else (("ptr", l) if k == "This" else self.read(st, l, n))
        if k == "Un":
            if n.op in ("++", "--"):
                l = self.lv(fr, n.c[0], st)
                old = self.read(st, l, n.c[0]) if l is not None else TOP
                new = self.binop("+" if n.op == "++" else "-", old, c(1)) if old != TOP else TOP
                self.write(st, l, new)
                return old if n.d.get("post") else new
            if n.op == "&":
                l = self.lv(fr, n.c[0], st)
                return TOP if l is None else ("ptr", l)
            if n.op == "*":
                l = self.lv(fr, n, st)
                return TOP if l is None else self.read(st, l, n)
            v = self.ev(fr, n.c[0], st)
            if n.op == "!":
                t = self.truth(v)
                return ("not", v) if t is None and v[0] != "not" and v != TOP else v[1] if t is None and v[0] == "not" else TOP if v == TOP else c(int(not t))
            if n.op == "-":
                if v[0] == "c":
                    return c(-v[1])
                r = ladd(c(0), v, -1)
                return r if r is not None else ("un", "-", v)
            if n.op == "+":
                return v
            return ("un", n.op, v) if v != TOP else TOP
        if k == "Bin":
            if n.op in ("&&", "||"):
                a = self.ev(fr, n.c[0], st)
                t = self.truth(a)
                if t is not None:
                    if t == (n.op == "||"):
                        return c(int(t))
                    b = self.ev(fr, n.c[1], st)
                    tb = self.truth(b)
                    return b if tb is None else c(int(tb))
                s2 = st.copy()
                b = self.ev(fr, n.c[1], s2)
                st.m = self.join_states(st, s2).m
                tb = self.truth(b)
                if tb is not None and tb == (n.op == "||"):
                    return c(int(tb))
                if tb is not None:
                    return a
                return (n.op, a, b) if a != TOP and b != TOP else TOP
            if n.op == ",":
                self.ev(fr, n.c[0], st)
                return self.ev(fr, n.c[1], st)
            a = self.ev(fr, n.c[0], st)
            b = self.ev(fr, n.c[1], st)
            return self.binop(n.op, a, b, n.t)
        if k == "Assign":
            v = self.ev(fr, n.c[1], st)
            l = self.lv(fr, n.c[0], st)
            if n.op != "=":
                old = self.read(st, l, n.c[0]) if l is not None else TOP
                v = self.binop(n.op[:-1], old, v)
            self.write(st, l, v)
            return v
        if k == "Cond":
            v = self.ev(fr, n.c[0], st)
            t = self.truth(v)
            if t is not None:
                return self.ev(fr, n.c[1] if t else n.c[2], st)
            a, b = st.copy(), st.copy()
            x, y = self.ev(fr, n.c[1], a), self.ev(fr, n.c[2], b)
            st.m = self.join_states(a, b).m
            return x if x == y else (("ite", v, x, y) if TOP not in (v, x, y) else TOP)
        if k == "InitList":
            vs = tuple(self.ev(fr, x, st) for x in n.args())
            if "pair<" in n.t and len(vs) == 2 and not n.t.startswith("std::vector"):
                return ("pair",) + vs
            return ("vec", None, vs)
        if k == "Construct":
            return self.construct(fr, n, st)
        if k == "Call":
            return self.call(fr, n, st)
        if k == "New":
            for x in n.args():
                self.ev(fr, x, st)
            self.fresh += 1
            return ("ptr", (("H", n.id), ()))
        if k == "Delete":
            self.ev(fr, n.c[0], st)
            return TOP
        if k == "Lambda":
            return ("lam", n.d["lam"])
        if k in ("Decl",):
            self.decl(fr, n, st)
            return TOP
        for x in n.kids():
            self.ev(fr, x, st)
        return TOP

    def construct(self, fr, n, st):
        r = self.call_model(fr, n, st)
        if r is not NotImplemented:
            return r
        a = n.args()
        if n.d.get("copy") or n.d.get("move"):
            return self.ev(fr, a[0], st)
        if self.isfield(n.t):
            if not a:
                return ("fld", c(0))
            v = self.ev(fr, a[0], st)
            if self.isfield(a[0].t) or v[0] in ("val", "neg", "prod", "sum", "inv", "pow", "fld"):
                return v
            return ("fld", v) if v != TOP else TOP
        if n.t.startswith("std::pair<") and len(a) == 2:
            return ("pair", self.ev(fr, a[0], st), self.ev(fr, a[1], st))
        if n.t.startswith("std::vector<") or n.t.startswith("std::stack<") or n.t.startswith("std::deque<") or n.t.startswith("std::list<"):
            if not a:
                return ("vec", None, ())
            vs = [self.ev(fr, x, st) for x in a if x.k != "DefaultArg"]
            if len(vs) == 1 and vs[0][0] == "vec":
                return vs[0]
            if len(vs) == 2 and vs[0][0] == "c" and vs[0][1] <= 8:
                return ("vec", None, (vs[1],) * vs[0][1])
            if len(vs) == 2 and vs[0][0] == "iter" and vs[1][0] == "iter" and vs[0][1] == vs[1][1]:
                return self.read(st, vs[0][1])
            return ("mk", n.t, tuple(vs)) if TOP not in vs else TOP
        if n.t.startswith("std::basic_string") or n.t.startswith("std::string"):
            if not a:
                return ("str", "")
            vs = [self.ev(fr, x, st) for x in a]
            if vs[0][0] in ("str", "tok"):
                return vs[0]
            if len(vs) >= 2 and vs[0][0] == "c" and vs[1][0] == "c" and "char" in a[1].t:
                return ("str", chr(vs[1][1]) * vs[0][1])
            return ("mk", "string", tuple(vs)) if TOP not in vs else TOP
        g = self.P.callee(n)
        if g is not None and g.rec and self.depth < 8 and (g.cfg is not None):
            return self.new_object(fr, n, g, st)
        if len(a) == 1:
            v = self.ev(fr, a[0], st)
            if v[0] in ("iter", "it"):
                return v
            return ("mk", n.t, (v,)) if v != TOP else TOP
        vs = tuple(self.ev(fr, x, st) for x in a)
        return ("mk", n.t, vs) if TOP not in vs else TOP

    def field_inits(self, g):
        return g.inits

    def new_object(self, fr, n, g, st):
        """runs a constructor of the repository on a fresh object and returns its value"""
        self.fresh += 1
        root = ("T", self.fresh)
        st.m[root] = ("rec", ("new", g.rec), ())
        sub = self.frame(g, (root, ()))
        self.bind_params(fr, g, n.args(), sub, st)
        out = self.run_ctor(sub, g, st)
        if out is None:
            return TOP
        st.m = out.m
        return st.m.get(root, TOP)

    def run_ctor(self, sub, g, st):
        self.depth += 1
        try:
            for m, name, _, e, base in self.field_inits(g):
                if m is None or e is None:
                    continue
                v = self.ev(sub, e, st)
                if v[0] == "c" and self.isfield(e.t):
                    v = ("fld", v)
                self.write(st, self.acc(sub["this"], ("f", name), st), v)
            o = self.exec(sub, g.body, st.copy())
            res = o.get("next")
            for s, _, _ in o.get("return", ()):
                res = s if res is None else self.join_states(res, s)
            return res
        finally:
            self.depth -= 1

    def bind_params(self, fr, g, args, sub, st):
        for pv, x in zip(g.params, args):
            if pv.t.endswith("&"):
                l = self.lv(fr, x, st)
                if l is None:
                    l = self.temp(st, self.ev(fr, x, st))
                sub["refs"][pv.d] = l
            else:
                st.m[("L", pv.d, pv.n)] = self.ev(fr, x, st)

    def call(self, fr, n, st):
        r = self.call_model(fr, n, st)
        if r is not NotImplemented:
            return r
        a = n.args()
        op = n.op
        fq = n.d.get("fq", "")
        nm = n.name
        if fq.startswith("std::") and nm in ("move", "forward", "ref", "cref") and len(a) == 1:
            return self.ev(fr, a[0], st)
        if op == "=" and len(a) == 2 and (self.P.callee(n) is None or self.P.callee(n).flag("defaulted") or self.isfield(a[0].t)):
            v = self.ev(fr, a[1], st)
            if self.isfield(a[0].t) and not self.isfield(a[1].t) and v[0] == "c":
                v = ("fld", v)
            self.write(st, self.lv(fr, a[0], st), v)
            return v
        # field arithmetic
        if op and a and any(self.isfield(x.t) for x in a):
            if op in ("+=", "-=", "*=", "/=") and len(a) == 2:
                b = self.ev(fr, a[1], st)
                l = self.lv(fr, a[0], st)
                v = self.fieldop(op[0], self.read(st, l, a[0]) if l is not None else TOP, b)
                self.write(st, l, v)
                return v
            if op in ("+", "-", "*", "/") and len(a) == 2:
                return self.fieldop(op, self.fieldval(fr, a[0], st), self.fieldval(fr, a[1], st))
            if op == "-" and len(a) == 1:
                v = self.ev(fr, a[0], st)
                return TOP if v == TOP else mneg(v)
            if op == "+" and len(a) == 1:
                return self.ev(fr, a[0], st)
            if op in ("==", "!=", "<", ">", "<=", ">="):
                return self.binop(op, self.fieldval(fr, a[0], st), self.fieldval(fr, a[1], st))
        if nm == "pow" and ((n.obj is not None and self.isfield(n.obj.t)) or (a and self.isfield(a[0].t))):
            x = self.ev(fr, n.obj, st) if n.obj is not None else self.ev(fr, a[0], st)
            y = self.ev(fr, a[-1], st)
            return TOP if TOP in (x, y) else mpow(x, y)
        if nm == "to_neg_int" and n.obj is not None:
            v = self.ev(fr, n.obj, st)
            return TOP if v == TOP else ("negint", v)
        if nm == "invert" and n.obj is not None and self.isfield(n.obj.t):
            v = self.ev(fr, n.obj, st)
            return TOP if v == TOP else minv(v)
        # containers
        if n.obj is not None and self.P.callee(n) is None:
            r = self.container(fr, n, st)
            if r is not NotImplemented:
                return r
        if op in ("==", "!=", "<", ">", "<=", ">=") and len(a) == 2 and self.P.callee(n) is None:
            return self.binop(op, self.ev(fr, a[0], st), self.ev(fr, a[1], st))
        if op == "+" and len(a) == 2 and self.P.callee(n) is None:
            x, y = self.ev(fr, a[0], st), self.ev(fr, a[1], st)
            return self.concat(x, y)
        if op == "[]" or op in ("*", "->") and len(a) == 1:
            l = self.lv(fr, n, st)
            if l is not None:
                return self.read(st, l, n)
        if op in ("++", "--") and len(a) == 1 and self.P.callee(n) is None:
            return self.ev(fr, a[0], st)
        if fq.startswith("std::make_pair") or nm == "make_pair":
            return ("pair", self.ev(fr, a[0], st), self.ev(fr, a[1], st))
        if fq.startswith("std::get") and a:
            l = self.lv(fr, n, st)
            if l is not None:
                return self.read(st, l, n)
        g = self.P.callee(n)
        if g is not None and g.cfg is not None and self.depth < 8:
            return self.inline(fr, n, g, st)
        vs = []
        if n.obj is not None:
            vs.append(self.ev(fr, n.obj, st))
        for x in a:
            vs.append(self.ev(fr, x, st))
        for x, t in zip(a, n.pt):
            if t.endswith("&") and not t.startswith("const "):
                l = self.lv(fr, x, st)
                if l is not None:
                    self.write(st, l, TOP)
        for v in vs:
            # an unknown function may write through the iterators and pointers it is given
            if isinstance(v, tuple) and v and v[0] in ("iter", "it", "ptr") and nm not in ("distance",):
                self.write(st, v[1], TOP)
        if n.obj is not None and not n.d.get("const") and not n.d.get("noret"):
            l = self.lv(fr, n.obj, st)
            if l is not None:
                self.write(st, l, TOP)
        return TOP if TOP in vs else ("call", nm, tuple(vs))

    def fieldval(self, fr, n, st):
        v = self.ev(fr, n, st)
        if v[0] == "c":
            return ("fld", v)
        return v

    def concat(self, x, y):
        if x[0] == "str" and y[0] == "str":
            return ("str", x[1] + y[1])
        return TOP if TOP in (x, y) else ("cat", x, y)

    def container(self, fr, n, st):
        nm, a = n.name, n.args()
        l = self.lv(fr, n.obj, st)
        if l is None:
            l = self.temp(st, self.ev(fr, n.obj, st))
        v = self.read(st, l, n.obj)
        if nm in ("push", "push_back", "emplace_back", "emplace") and v[0] == "vec" and (nm != "emplace" or "stack" in n.obj.t):
            vs = [self.ev(fr, x, st) for x in a]
            if len(vs) == 2 and "pair<" in n.obj.t:
                e = ("pair",) + tuple(vs)
            elif len(vs) == 0:
                e = ("fld", c(0)) if "FFInt" in n.obj.t else ("vec", None, ())
            elif len(vs) == 1:
                e = vs[0]
                if e[0] == "c" and "stack<firefly" in n.obj.t:
                    e = ("fld", e)
            else:
                e = ("mk", "elem", tuple(vs))
            self.write(st, l, ("vec", v[1], v[2] + (e,)) + v[3:])
            return TOP
        if nm in ("pop", "pop_back") and v[0] == "vec":
            self.write(st, l, ("vec", v[1], v[2][:-1]) + v[3:] if v[2] else TOP)
            return TOP
        if nm in ("top", "back", "front", "at"):
            ll = self.lv(fr, n, st)
            return self.read(st, ll, n) if ll is not None else TOP
        if nm == "insert" and v[0] == "vec" and len(a) in (2, 3):
            pos = self.ev(fr, a[0], st)
            vs = [self.ev(fr, x, st) for x in a[1:]]
            if pos[0] == "iter" and pos[1] == l and v[1] is None:
                if len(vs) == 2 and vs[0][0] == "iter" and vs[1][0] == "iter" and vs[0][1] == vs[1][1] and vs[0][2] == "begin" and vs[1][2] == "end":
                    w = self.read(st, vs[0][1])
                    items = w[2] if w[0] == "vec" and w[1] is None else (("splice", w),)
                elif len(vs) == 1:
                    items = (vs[0],)
                else:
                    self.write(st, l, TOP)
                    return TOP
                if pos[2] == "end":
                    self.write(st, l, ("vec", v[1], v[2] + items))
                    return TOP
                if pos[2] == "begin":
                    self.write(st, l, ("vec", v[1], items + v[2]))
                    return TOP
            self.write(st, l, TOP)
            return TOP
        if nm in ("begin", "cbegin", "end", "cend", "rbegin", "rend"):
            return ("iter", l, nm.lstrip("c"))
        if nm in ("reserve", "shrink_to_fit"):
            for x in a:
                self.ev(fr, x, st)
            return TOP
        if nm == "size" and v[0] == "vec" and v[1] is None:
            return c(len(v[2]))
        if nm in ("size", "length", "empty") and v != TOP and v[0] != "vec":
            return ("size", v) if nm != "empty" else ("cmp", "==", ("c", 0), ("size", v))
        if nm == "size" and v[0] == "vec":
            return mklin({("size", ("sym", v[1])): 1}, len(v[2]))
        if nm == "empty" and v[0] == "vec":
            return c(0) if v[2] else TRUE if v[1] is None else ("cmp", "==", ("c", 0), ("size", ("sym", v[1])))
        if nm == "clear":
            self.write(st, l, ("vec", None, ()))
            return TOP
        return NotImplemented

    # ---- inlining
    def inline(self, fr, n, g, st, want_lv=False):
        self.depth += 1
        try:
            if self.depth > 8:
                return TOP
            if g.lam:
                sub = self.frame(g, fr["this"], {}, fr)
            else:
                sub = self.frame(g)
            args = n.args()
            if n.k == "Call" and n.obj is not None and not g.lam:
                l = self.lv(fr, n.obj, st)
                if l is None:
                    l = self.temp(st, self.ev(fr, n.obj, st))
                v = self.read(st, l, n.obj) if n.obj.t.rstrip().endswith("*") else None
                sub["this"] = v[1] if v is not None and v[0] == "ptr" else l
            elif n.op and (g.kind in ("method", "op") or g.rec) and args and not g.lam and len(args) == len(g.params) + 1:
                l = self.lv(fr, args[0], st)
                sub["this"] = l if l is not None else self.temp(st, self.ev(fr, args[0], st))
                args = args[1:]
            elif g.lam and n.op == "()":
                args = args[1:]
            self.bind_params(fr, g, args, sub, st)
            out = self.exec(sub, g.body, st.copy())
            res, val = None, None
            if out.get("next") is not None:
                res, val = out["next"], TOP
            for s, v, l in out.get("return", ()):
                if want_lv:
                    v = l
                if res is None:
                    res, val = s, v
                else:
                    val = val if val == v else TOP
                    res = self.join_states(res, s)
            if res is None:
                st.m = {("dead",): TRUE}
                return TOP
            st.m = res.m
            return val
        finally:
            self.depth -= 1

    # ---- statements
    def join_states(self, a, b):
        if ("dead",) in a.m:
            return b
        if ("dead",) in b.m:
            return a
        out = {}
        for k in set(a.m) | set(b.m):
            x, y = a.m.get(k), b.m.get(k)
            if x is None or y is None:
                if k[0] in ("this", "S") and (x or y) is not None:
                    z = self.initial(k, "", None)
                    out[k] = (x or y) if (x or y) == z else TOP
                else:
                    out[k] = x if y is None else y
            elif x == y:
                out[k] = x
            else:
                out[k] = self.join_vals(x, y)
        return State(out)

    def join_vals(self, x, y):
        return TOP

    def decl(self, fr, n, st):
        for v in n.vars:
            if v.static:
                continue
            if v.t.endswith("&"):
                if v.init is not None:
                    l = self.lv(fr, v.init, st)
                    if l is None:
                        l = self.temp(st, self.ev(fr, v.init, st))
                    fr["refs"][v.d] = l
                continue
            key = ("L", v.d, v.n)
            if v.init is not None:
                val = self.ev(fr, v.init, st)
                if val[0] == "c" and self.isfield(v.t):
                    val = ("fld", val)
                st.m[key] = val
            else:
                st.m[key] = TOP

    @staticmethod
    def merge(*outs):
        o = {}
        return o

    def exec(self, fr, n, st):
        """-> dict next/break/continue: State|None, return: [(State, value, lvalue)], exit: [(State, node)]"""
        if n is None:
            return {"next": st}
        k = n.k
        if k == "Compound":
            out = {"return": [], "exit": []}
            cur = st
            for x in n.c:
                if x is None:
                    continue
                o = self.exec(fr, x, cur)
                self.collect(out, o)
                cur = o.get("next")
                if cur is None:
                    break
            out["next"] = cur
            return out
        if k == "If":
            for x in n.c[3:]:
                if x is not None:
                    st = self.exec(fr, x, st)["next"]
            cnd, th, el = n.c[0], n.c[1], n.c[2] if len(n.c) > 2 else None
            v = self.ev(fr, cnd, st)
            t = self.truth(v)
            if t is True:
                return self.exec(fr, th, st)
            if t is False:
                return self.exec(fr, el, st) if el is not None else {"next": st}
            s1, s2 = st.copy(), st.copy()
            self.assume(fr, cnd, v, True, s1)
            self.assume(fr, cnd, v, False, s2)
            o1 = self.exec(fr, th, s1)
            o2 = self.exec(fr, el, s2) if el is not None else {"next": s2}
            return self.both(o1, o2)
        if k == "Switch":
            v = self.ev(fr, n.c[0], st)
            return self.switch(fr, n, v, st)
        if k in ("Case", "Default"):
            return self.exec(fr, n.c[-1], st)
        if k == "Decl":
            self.decl(fr, n, st)
            return {"next": st} if ("dead",) not in st.m else {"next": None}
        if k == "Return":
            x = n.c[0] if n.c else None
            l = self.lv(fr, x, st) if x is not None and fr["fn"].ret.endswith("&") else None
            v = self.ev(fr, x, st) if x is not None else TOP
            if ("dead",) in st.m:
                return {"next": None}
            return {"next": None, "return": [(st, v, l)]}
        if k == "Break":
            return {"next": None, "break": st}
        if k == "Continue":
            return {"next": None, "continue": st}
        if k in ("For", "While", "Do", "ForRange"):
            o = self.loop_model(fr, n, st)
            if o is not None:
                return o
            return self.loop(fr, n, st)
        if k == "Try":
            return self.exec(fr, n.c[0], st)
        if is_exit(n):
            for x in n.args():
                self.ev(fr, x, st)
            return {"next": None, "exit": [(st, n)]}
        if k == "Do":
            return self.exec(fr, n.c[0], st)
        self.ev(fr, n, st)
        if ("dead",) in st.m:
            return {"next": None, "exit": [(st, n)]}
        return {"next": st}

    def assume(self, fr, n, v, truth, st):
        pass

    def collect(self, out, o):
        out.setdefault("return", []).extend(o.get("return", ()))
        out.setdefault("exit", []).extend(o.get("exit", ()))
        for k in ("break", "continue"):
            if o.get(k) is not None:
                out[k] = o[k] if out.get(k) is None else self.join_states(out[k], o[k])

    def both(self, a, b):
        out = {"return": [], "exit": []}
        self.collect(out, a)
        self.collect(out, b)
        x, y = a.get("next"), b.get("next")
        out["next"] = x if y is None else y if x is None else self.join_states(x, y)
        return out

    def switch(self, fr, n, v, st):
        body = n.c[-1]
        items = [x for x in body.c if x is not None] if body.k == "Compound" else [body]
        # flatten: list of (labels, stmts)
        seq = []
        for x in items:
            labels = []
            while x is not None and x.k in ("Case", "Default"):
                labels.append("default" if x.k == "Default" else x.c[0].cv if x.c[0].cv is not None else strip(x.c[0]).cv)
                x = x.c[-1]
            seq.append((labels, x))
        all_labels = [l for ls, _ in seq for l in ls]
        starts = []
        if v[0] == "c":
            m = [i for i, (ls, _) in enumerate(seq) if v[1] in ls] or [i for i, (ls, _) in enumerate(seq) if "default" in ls]
            starts = m[:1]
        else:
            starts = [i for i, (ls, _) in enumerate(seq) if ls]
        out = {"return": [], "exit": []}
        nxt = []
        if not starts or (v[0] != "c" and "default" not in all_labels):
            nxt.append(st.copy())
        for i in starts:
            cur = st.copy()
            o2 = None
            for _, x in seq[i:]:
                o = self.exec(fr, x, cur)
                br = o.pop("break", None)
                self.collect(out, o)
                if br is not None:
                    nxt.append(br)
                cur = o.get("next")
                if cur is None:
                    break
            if cur is not None:
                nxt.append(cur)
        r = None
        for s in nxt:
            r = s if r is None else self.join_states(r, s)
        out["next"] = r
        return out

    # ---- loops
    def targets(self, fr, body, st):
        """roots written in a statement (syntactic, including reference arguments of calls)"""
        out = set()
        for n in body.walk():
            t = None
            if n.k == "Assign" or n.k == "Un" and n.op in ("++", "--"):
                t = n.c[0]
            elif n.k == "Call":
                if n.op and (n.op in ("++", "--", "=") or n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">=")):
                    t = n.args()[0]
                elif n.obj is not None and not n.d.get("const") and n.name not in ("begin", "end", "size", "find", "at", "top", "back", "front", "get", "reserve"):
                    t = n.obj
                for x, pt in zip(n.args() if not n.op else n.args()[-len(n.pt):] if n.pt else [], n.pt):
                    if pt.endswith("&") and not pt.startswith("const ") and not pt.endswith("&&"):
                        out.add(self.root_of(fr, x, st))
            if t is not None:
                out.add(self.root_of(fr, t, st))
            if n.k == "Call":
                g = self.P.callee(n)
                if g is not None and g.rec and not g.flag("static") and (n.obj is None or strip(n.obj).k == "This"):
                    for m in self.member_targets(g, ()):
                        l = fr["this"]
                        out.add(("this", m) if l is None or l[0] == ("this",) else l[0])
        out.discard(None)
        return out

    def member_targets(self, g, seen):
        """members of *this a method may write"""
        if g.u in seen:
            return set()
        out = set()
        for n in g.walk():
            ts = []
            if n.k == "Assign" or n.k == "Un" and n.op in ("++", "--"):
                ts.append(n.c[0])
            elif n.k == "Call":
                if n.op and (n.op in ("++", "--", "=") or n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">=")) and n.args():
                    ts.append(n.args()[0])
                elif n.obj is not None and not n.d.get("const") and n.name not in ("begin", "end", "size", "find", "get", "reserve"):
                    ts.append(n.obj)
                ts += [x for x, pt in zip(n.args(), n.pt) if pt.endswith("&") and not pt.startswith("const ")]
                h = self.P.callee(n)
                if h is not None and h.rec == g.rec and (n.obj is None or strip(n.obj).k == "This"):
                    out |= self.member_targets(h, seen + (g.u,))
            for t in ts:
                t = strip(t)
                while t is not None:
                    if t.k == "Member" and t.c and strip(t.c[0]) is not None and strip(t.c[0]).k == "This":
                        out.add(t.name)
                        break
                    if t.k == "Call":
                        t = strip(t.obj) if t.obj is not None else (strip(t.args()[0]) if t.args() else None)
                    elif t.k in ("Member", "Sub", "Un", "Assign") and t.c:
                        t = strip(t.c[0])
                    else:
                        break
        return out

    def root_of(self, fr, n, st):
        n = strip(n)
        while n is not None:
            if n.k == "Ref":
                l = self.lv(fr, n, st)
                if l is None:
                    return None
                if l[0] == ("this",) and l[1] and l[1][0][0] == "f":
                    return ("this", l[1][0][1])
                return l[0]
            if n.k == "Member":
                if n.d.get("sm"):
                    return ("S", n.d["q"])
                b = strip(n.c[0])
                if b.k == "This":
                    l = fr["this"]
                    return ("this", n.name) if l is None else l[0]
                n = b
                continue
            if n.k == "Call":
                n = strip(n.obj) if n.obj is not None else (strip(n.args()[0]) if n.args() else None)
                continue
            if n.k in ("Sub", "Un", "Assign"):
                n = strip(n.c[0])
                continue
            return None
        return None

    def body_of(self, n):
        if n.k == "ForRange":
            return n.c[2]
        if n.k == "For":
            return n.c[3] if len(n.c) > 3 else n.c[-1]
        if n.k == "While":
            return n.c[-1]
        return n.c[0]

    def enter_range(self, fr, n, st):
        """binds a range-for variable; returns (container lvalue)"""
        rng = n.c[1].vars[0]
        l = self.lv(fr, rng.init, st)
        if l is None:
            l = self.temp(st, self.ev(fr, rng.init, st))
        v = n.c[0].vars[0]
        el = (l[0], l[1] + (("elem",),))
        if v.t.endswith("&"):
            fr["refs"][v.d] = el
        else:
            st.m[("L", v.d, v.n)] = self.read(st, el)
        return l

    def havoc(self, fr, body, st, extra=()):
        for r in self.targets(fr, body, st) | set(extra):
            st.m[r] = self.havoc_val(r, st)

    def havoc_val(self, root, st):
        return TOP

    def loop(self, fr, n, st):
        # counted loop with constant bounds
        r = self.unroll(fr, n, st)
        if r is not None:
            return r
        body = self.body_of(n)
        if n.k == "ForRange":
            r = self.unroll_range(fr, n, st)
            if r is not None:
                return r
            r = self.map_loop(fr, n, st)
            if r is not None:
                return r
        if n.k == "For" and n.c[0] is not None:
            o = self.exec(fr, n.c[0], st)
            st = o["next"]
        entry = st.copy()
        self.havoc_loop(fr, n, st)
        inner = st.copy()
        if n.k == "ForRange":
            self.enter_range(fr, n, inner)
        cond = n.c[1] if n.k in ("For", "Do") else n.c[0] if n.k == "While" else None
        if n.k == "Do":
            cond = None
        self.active.append(n)
        self.loop_enter(fr, n, entry, inner)
        if cond is not None:
            v = self.ev(fr, cond, inner)
            self.assume(fr, cond, v, True, inner)
        o = self.exec(fr, body, inner)
        ends = [x for x in (o.get("next"), o.get("continue")) if x is not None]
        s2 = None
        for x in ends:
            s2 = x if s2 is None else self.join_states(s2, x)
        if s2 is not None and n.k == "For" and n.c[2] is not None:
            self.ev(fr, n.c[2], s2)
        self.loop_leave(fr, n, entry, s2, o)
        self.active.pop()
        out = {"return": o.get("return", []), "exit": o.get("exit", [])}
        if cond is not None:
            v = self.ev(fr, cond, st)
            self.assume(fr, cond, v, False, st)
        out["next"] = st
        return out

    active = []

    def loop_enter(self, fr, n, entry, st):
        pass

    def loop_leave(self, fr, n, entry, st, out):
        """st: state at the end of one iteration (None if never reached)"""
        pass

    def havoc_loop(self, fr, n, st):
        body = self.body_of(n)
        parts = [body] + ([n.c[2]] if n.k == "For" and n.c[2] is not None else []) + ([n.c[1]] if n.k in ("For", "Do") and n.c[1] is not None else []) + ([n.c[0]] if n.k == "While" else [])
        ts = set()
        direct = set()
        for x in parts:
            ts |= self.targets(fr, x, st)
            for y in x.walk():
                if y.k == "Assign" or y.k == "Un" and y.op in ("++", "--"):
                    z = strip(y.c[0])
                    if z is not None and z.k == "Ref":
                        direct.add(self.root_of(fr, z, st))
        hs = self.havoced.setdefault(n, set())
        for r in ts:
            v = st.m.get(r)
            if v is not None and v[0] == "ptr" and r not in direct:
                # writes go through the pointer
                st.m[v[1][0]] = self.havoc_val(v[1][0], st)
                hs.add(v[1][0])
            else:
                st.m[r] = self.havoc_val(r, st)
                hs.add(r)

    def map_loop(self, fr, n, st):
        """for (x : C) V.push_back(f(x))  summarised as  V = map(C, f)"""
        body = n.c[2]
        t = self.targets(fr, body, st)
        if len(t) != 1:
            return None
        (root,) = t
        v0 = st.m.get(root)
        if v0 != ("vec", None, ()):
            return None
        s = st.copy()
        l = self.enter_range(fr, n, s)
        C = self.read(s, l)
        if C == TOP or C[0] == "vec":
            return None
        ev = n.c[0].vars[0]
        self.fresh += 1
        tmp = ("T", self.fresh)
        s.m[tmp] = ("elemof", C)
        if ev.t.endswith("&"):
            fr["refs"][ev.d] = (tmp, ())
        else:
            s.m[("L", ev.d, ev.n)] = ("elemof", C)
        o = self.exec(fr, body, s)
        if o.get("return") or o.get("exit") or o.get("break") is not None or o.get("next") is None:
            return None
        r = o["next"].m.get(root)
        if r is None or r[0] != "vec" or len(r[2]) != 1:
            return None
        st.m[root] = ("map", C, r[2][0])
        return {"next": st}

    maxunroll = 300

    def unroll_range(self, fr, n, st):
        rng = n.c[1].vars[0]
        l = self.lv(fr, rng.init, st)
        if l is None:
            l = self.temp(st, self.ev(fr, rng.init, st))
        v = self.read(st, l)
        if v[0] != "vec" or v[1] is not None or len(v[2]) > self.maxunroll:
            return None
        ev = n.c[0].vars[0]
        out = {"return": [], "exit": []}
        brk = None
        s = st
        for i in range(len(v[2])):
            el = (l[0], l[1] + (("i", c(i)),))
            if ev.t.endswith("&"):
                fr["refs"][ev.d] = el
            else:
                s.m[("L", ev.d, ev.n)] = self.read(s, el)
            o = self.exec(fr, n.c[2], s)
            out["return"] += o.get("return", [])
            out["exit"] += o.get("exit", [])
            if o.get("break") is not None:
                brk = o["break"] if brk is None else self.join_states(brk, o["break"])
            s = o.get("next")
            if o.get("continue") is not None:
                s = o["continue"] if s is None else self.join_states(s, o["continue"])
            if s is None:
                break
        if brk is not None:
            s = brk if s is None else self.join_states(s, brk)
        out["next"] = s
        return out

    def unroll(self, fr, n, st):
        if n.k == "For":
            init, cond, inc = n.c[0], n.c[1], n.c[2]
        elif n.k == "While":
            init, cond, inc = None, n.c[0], None
        elif n.k == "Do":
            init, cond, inc = None, n.c[1], None
        else:
            return None
        probe = st.copy()
        if init is not None:
            probe = self.exec(fr, init, probe).get("next")
            if probe is None:
                return None
        if n.k != "Do" and (cond is None or self.truth(self.ev(fr, cond, probe.copy())) is None):
            return None
        s = probe
        out = {"return": [], "exit": []}
        it = 0
        brk = None
        first = n.k == "Do"
        while True:
            if not first:
                t = self.truth(self.ev(fr, cond, s)) if cond is not None else True
                if t is None:
                    return None
                if not t:
                    break
            first = False
            it += 1
            if it > self.maxunroll:
                return None
            o = self.exec(fr, self.body_of(n), s)
            out["return"] += o.get("return", [])
            out["exit"] += o.get("exit", [])
            if o.get("break") is not None:
                brk = o["break"] if brk is None else self.join_states(brk, o["break"])
            s = o.get("next")
            if o.get("continue") is not None:
                s = o["continue"] if s is None else self.join_states(s, o["continue"])
            if s is None:
                break
            if inc is not None:
                self.ev(fr, inc, s)
        if brk is not None:
            s = brk if s is None else self.join_states(s, brk)
        out["next"] = s
        return out
