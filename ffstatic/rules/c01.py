"""C01: field elements stay canonical under every operation.

Abstract interpretation of the field arithmetic.  Abstract values are integer linear
forms over symbols (operands, p, results of primitives), the state is a conjunction of
linear inequalities (convex polyhedra, entailment by Fourier-Motzkin elimination) kept
per trace.  Unsigned arithmetic is carried exactly and reduced modulo 2^w only where the
program observes the value, so every wrap-around is explicit.  Each symbol also carries
its residue modulo p as a polynomial over the operands; a wrap adds a multiple of 2^64,
which shows up as a wrong residue."""
import itertools
import re

TECHNIQUE = "abstract interpretation (trace-partitioned convex polyhedra with residues modulo p) of every field operation in both arithmetic backends"
NOTE = ("p is taken as any prime in [2^62, 2^63), operands as any canonical values. Assumed: FLINT's n_* functions honour their documentation; "
        "the quotient computed in long double from reduced operands is off by at most one such that a*b - c*m stays in [-m, m]; Bezout coefficients of the Euclidean algorithm are below the modulus in absolute value; unsigned exponents below 2^63 with FLINT.")

from ..core import *
from ..core import strip

W64 = 1 << 64
DEPTH = 8


class Unsup(Exception):
    pass


# ------------------------------------------------------------------ linear forms
def lin(c=0, **k):
    r = {1: c} if c else {}
    return r


def add(a, b, k=1):
    r = dict(a)
    for s, v in b.items():
        x = r.get(s, 0) + k * v
        if x:
            r[s] = x
        else:
            r.pop(s, None)
    return r


def scale(a, k):
    return {s: v * k for s, v in a.items()} if k else {}


def const(a):
    if not a:
        return 0
    if set(a) == {1}:
        return a[1]
    return None


def infeasible(cons):
    """no rational point (Fourier-Motzkin)"""
    cur = []
    for c in cons:
        k = const(c)
        if k is not None:
            if k < 0:
                return True
            continue
        cur.append(c)
    while cur:
        syms = {}
        for c in cur:
            for s, v in c.items():
                if s != 1:
                    p, n = syms.get(s, (0, 0))
                    syms[s] = (p + (v > 0), n + (v < 0))
        s = min(syms, key=lambda x: syms[x][0] * syms[x][1] - syms[x][0] - syms[x][1])
        pos = [c for c in cur if c.get(s, 0) > 0]
        neg = [c for c in cur if c.get(s, 0) < 0]
        nxt = [c for c in cur if s not in c]
        seen = {tuple(sorted(c.items(), key=str)) for c in nxt}
        for a in pos:
            for b in neg:
                c = add(scale(a, -b[s]), scale(b, a[s]))
                k = const(c)
                if k is not None:
                    if k < 0:
                        return True
                    continue
                t = tuple(sorted(c.items(), key=str))
                if t not in seen:
                    seen.add(t)
                    nxt.append(c)
        if len(nxt) > 4000:
            return False
        cur = nxt
    return False


# ------------------------------------------------------------------ residues
def padd(a, b, k=1):
    r = dict(a)
    for m, v in b.items():
        x = r.get(m, 0) + k * v
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    r = {}
    for m, v in a.items():
        for n, w in b.items():
            t = tuple(sorted(m + n, key=str))
            x = r.get(t, 0) + v * w
            if x:
                r[t] = x
            else:
                r.pop(t, None)
    return r


def atom(a):
    return {(a,): 1}


def key(p):
    return tuple(sorted(p.items(), key=str))


ONE = {(): 1}


class Ctx:
    """symbols of one analysis"""

    def __init__(self):
        self.res = {}       # symbol -> residue polynomial
        self.prod = {}      # symbol -> (lin, lin)
        self.quot = {}      # symbol -> (num poly, den poly, good)
        self.half = {}
        self.unknown = set()
        self.cnt = itertools.count()

    def sym(self, name, res=None, unknown=False):
        s = "%s#%d" % (name, next(self.cnt))
        self.res[s] = atom(s) if res is None else res
        if unknown:
            self.unknown.add(s)
        return s

    def residue(self, e):
        r = {}
        for s, v in e.items():
            r = padd(r, ONE if s == 1 else self.res[s], v)
        return r


class St:
    __slots__ = ("cons", "env", "cells", "ret", "done")

    def __init__(self):
        self.cons, self.env, self.cells, self.ret, self.done = [], {}, {}, None, None

    def copy(self):
        s = St()
        s.cons, s.env, s.cells, s.ret, s.done = list(self.cons), dict(self.env), dict(self.cells), self.ret, self.done
        return s

    def entails(self, e):
        """e >= 0 on every integer point"""
        return infeasible(self.cons + [add(scale(e, -1), {1: -1})])

    def add(self, *es):
        s = self.copy()
        s.cons.extend(es)
        return None if infeasible(s.cons) else s

    def zero(self, e):
        return self.entails(e) and self.entails(scale(e, -1))


INTS = {"bool": (1, False), "char": (8, True), "signed char": (8, True), "unsigned char": (8, False), "short": (16, True), "unsigned short": (16, False),
        "int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False), "long long": (64, True), "unsigned long long": (64, False)}


def bare(t):
    t = re.sub(r"\bconst\b|\bvolatile\b", "", t or "").replace("&", "").strip()
    t = re.sub(r"\s+", " ", t)
    return {"uint64_t": "unsigned long", "int64_t": "long", "std::size_t": "unsigned long", "size_t": "unsigned long", "uint32_t": "unsigned int", "int32_t": "int",
            "ulong": "unsigned long", "slong": "long", "mp_limb_t": "unsigned long", "__uint128_t": "unsigned __int128", "unsigned __int128": "unsigned __int128"}.get(t, t)


def ity(t):
    t = bare(t)
    if t == "unsigned __int128":
        return (128, False)
    if t == "__int128":
        return (128, True)
    return INTS.get(t)


def bounds(w, s):
    if w == 1:
        return 0, 1
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)


def isff(t):
    return bare(t).split("::")[-1] == "FFInt"


P_ = "p"


class I:
    """interpreter of one function family"""

    def __init__(self, P, modulus=None):
        self.P = P
        self.C = Ctx()
        self.C.res[P_] = {}
        self.C.res["p_inv"] = atom("p_inv")
        self.problems = []
        self.oid = itertools.count()
        self.summary = None
        self.loops = []
        self.steps = 0

    def base(self):
        st = St()
        st.cons = [{P_: 1, 1: -(1 << 62)}, {P_: -1, 1: (1 << 63) - 1}, {"p_inv": 1}, {"p_inv": -1, 1: W64 - 1}]
        return st

    def ranged(self, st, name, lo, hi, res=None, unknown=False):
        """fresh symbol with lo <= s <= hi (linear forms)"""
        s = self.C.sym(name, res, unknown)
        st.cons.append(add({s: 1}, lo, -1))
        st.cons.append(add(hi, {s: 1}, -1))
        return {s: 1}

    def canon(self, st, name):
        return self.ranged(st, name, {}, {P_: 1, 1: -1})

    def fresh(self, st, t, name="v", unknown=True):
        w = ity(t)
        if w is None:
            return ("?",)
        lo, hi = bounds(*w)
        return ("i", self.ranged(st, name, {1: lo} if lo else {}, {1: hi}, None, unknown), w)

    def newobj(self, st, val=None):
        o = next(self.oid)
        st.cells[o] = val
        return ("o", o)

    def bad(self, n, what):
        x = (n.loc() if n is not None else "", what)
        if x not in self.problems:
            self.problems.append(x)

    # -- observe a value: reduce to its type
    def norm(self, v, st):
        if v[0] != "i":
            return [(v, st)]
        e, (w, s) = v[1], v[2]
        lo, hi = bounds(w, s)
        if self.exact and w == 64 and any(x in self.C.prod for x in e):
            t = st.add(add(e, {1: -lo}), add({1: hi}, e, -1))
            return [(v, t)] if t is not None else []
        low, up = add(e, {1: -lo}), add({1: hi}, e, -1)
        if st.entails(low) and st.entails(up):
            return [(v, st)]
        if w == 1:
            raise Unsup("bool arithmetic")
        out = []
        M = 1 << w
        full = True
        for k in (0, 1, -1, 2, -2):
            f = add(e, {1: -k * M})
            t = st.add(add(f, {1: -lo}), add({1: hi}, f, -1))
            if t is not None:
                out.append((("i", f, (w, s)), t))
        # anything beyond
        if not (st.entails(add(low, {1: 2 * M})) and st.entails(add(up, {1: 2 * M}))):
            full = False
        if full:
            return out
        t = st.copy()
        return [(self.fresh(t, {8: "unsigned char", 16: "unsigned short", 32: "unsigned int", 64: "unsigned long"}.get(w, "unsigned long") if not s else {8: "char", 16: "short", 32: "int", 64: "long"}.get(w, "long"), "wrap", True), t)]

    def cast(self, v, t, st, n):
        w = ity(t)
        if v[0] == "i" and w is not None:
            if w[0] == 1:
                return self.truth(v, st)
            e, (ow, os) = v[1], v[2]
            if w == (ow, os):
                return [(v, st)]
            if w[0] == 64 and ow == 64 and w[1]:        # unsigned to signed: recognise a*b - q*m
                r = self.remainder_form(e, st, n)
                if r is not None:
                    return [(("i", r[0], w), r[1])]
            if self.exact and w[0] == 64 and ow == 64 and w[1]:
                return self.norm(("i", e, w), st)
            if not w[1] and w[0] <= ow or w[0] == ow:
                # same residue modulo 2^w: reduce when observed
                if not w[1]:
                    return [(("i", e, w), st)]
            out = []
            for x, s in self.norm(v, st):
                out += self.norm(("i", x[1], w), s)
            return out
        if v[0] == "b" and w is not None:
            out = []
            for val, s in self.split(v, st):
                out.append((("i", {1: 1} if val else {}, w), s))
            return out
        if v[0] == "i" and bare(t) in ("long double", "double", "float", "__float128"):
            out = []
            for x, s in self.norm(v, st):
                out.append((("f", self.formkey(x[1]), self.formkey({1: 1}), bare(t) in ("long double", "__float128")), s))
            return out
        if v[0] == "f" and w is not None:
            s2 = st.copy()
            x = self.fresh(s2, t, "q", False)
            self.C.quot[next(iter(x[1]))] = v
            return [(x, s2)]
        if v[0] == "f" and bare(t) in ("long double", "double", "float"):
            return [(("f", v[1], v[2], v[3] and bare(t) == "long double"), st)]
        if w is not None:
            s2 = st.copy()
            return [(self.fresh(s2, t), s2)]
        return [(v, st)]

    def formkey(self, e):
        """polynomial over symbols (not residues) as a dict"""
        return {((s,) if s != 1 else ()): v for s, v in e.items()}

    def remainder_form(self, e, st, n):
        """A*B - Q*m with Q the float quotient A*B/m: assumed in [-m, m]"""
        if len(e) != 2 or 1 in e:
            return None
        pos = [s for s, v in e.items() if v == 1 and s in self.C.prod]
        neg = [s for s, v in e.items() if v == -1 and s in self.C.prod]
        if len(pos) != 1 or len(neg) != 1:
            return None
        A, B = self.C.prod[pos[0]]
        X, Y = self.C.prod[neg[0]]
        for Q, m in ((X, Y), (Y, X)):
            if len(Q) == 1 and next(iter(Q)) in self.C.quot and Q[next(iter(Q))] == 1:
                _, num, den, good = self.C.quot[next(iter(Q))]
                if pmul(num, self.formkey(m)) != pmul(den, pmul(self.formkey(A), self.formkey(B))):
                    self.bad(n, "the quotient used for the reduction is not the quotient of the product and the modulus")
                    return None
                if not good:
                    self.bad(n, "the quotient of a 126-bit product is computed with less than the 64-bit mantissa of long double: off by more than one")
                    return None
                for z in (A, B):
                    if not (st.entails(z) and st.entails(add(add(m, z, -1), {1: -1}))):
                        self.bad(n, "the operands of the product are not reduced before the quotient is formed")
                        return None
                t = st.copy()
                t.cons += [add(e, m), add(m, e, -1)]
                return e, t
        return None

    # -- conditions: list of (bool, state)
    def split(self, v, st):
        if v[0] == "b":
            return v[1](st)
        return [x for r, s in self.truth(v, st) for x in self.split(r, s)]

    def truth(self, v, st):
        if v[0] == "b":
            return [(v, st)]
        if v[0] == "i":
            out = []
            for x, s in self.norm(v, st):
                out.append((("b", lambda q, e=x[1]: self.cmp(q, "!=", e, {})), s))
            return out
        return [(("b", lambda q: [(True, q.copy()), (False, q.copy())]), st)]

    def cmp(self, st, op, a, b):
        d = add(a, b, -1)
        def br(*es):
            return st.add(*es)
        if op in ("==", "!="):
            eq = br(d, scale(d, -1))
            lt = br(add(scale(d, -1), {1: -1}))
            gt = br(add(d, {1: -1}))
            r = [(op == "==", eq)] + [(op == "!=", x) for x in (lt, gt)]
        elif op in (">=", "<"):
            r = [(op == ">=", br(d)), (op == "<", br(add(scale(d, -1), {1: -1})))]
        else:
            r = [(op == "<=", br(scale(d, -1))), (op == ">", br(add(d, {1: -1})))]
        return [(x, s) for x, s in r if s is not None]

    # -- expressions
    def ev(self, n, st):
        self.steps += 1
        if self.steps > 60000:
            raise Unsup("too many paths")
        if n is None:
            return [(("?",), st)]
        w = ity(n.t)
        if n.cv is not None and w is not None and n.k not in ("Assign",):
            return [(("i", {1: int(n.cv)} if int(n.cv) else {}, w), st)]
        m = getattr(self, "e_" + n.k, None)
        if m is None:
            return self.opaque(n, st)
        return m(n, st)

    def opaque(self, n, st):
        """unknown expression; objects it can reach change only if handed over by reference"""
        s = st.copy()
        for x in n.walk():
            if x.k == "Assign" or x.k == "Un" and x.op in ("++", "--"):
                raise Unsup("assignment inside %s" % n.k)
            if x.k == "Lambda":
                raise Unsup("lambda")
        w = ity(n.t)
        return [(self.fresh(s, n.t) if w else ("?",), s)]

    def e_Int(self, n, st):
        v = int(n.d.get("v", 0))
        return [(("i", {1: v} if v else {}, ity(n.t) or (32, True)), st)]

    e_Bool = e_Int
    e_Char = e_Int

    def e_Str(self, n, st):
        return [(("?",), st)]

    def e_InitList(self, n, st):
        a = n.args()
        if len(a) == 1:
            return self.ev(a[0], st)
        if not a and ity(n.t):
            return [(("i", {}, ity(n.t)), st)]
        return self.opaque(n, st)

    def e_This(self, n, st):
        return [(st.env.get("this", ("?",)), st)]

    def e_Ref(self, n, st):
        d = n.d.get("d")
        if d in st.env:
            v = st.env[d]
            if v is None:
                s = st.copy()
                return [(self.fresh(s, n.t, "uninit"), s)]
            if v[0] == "ref":
                return [(st.env[v[1]], st)]
            if v[0] == "cell":
                if st.cells[v[1]] is None:
                    s = st.copy()
                    return [(self.fresh(s, n.t, "uninit"), s)]
                return [(st.cells[v[1]], st)]
            return [(v, st)]
        q = n.d.get("q", "")
        if q.endswith("FFInt::p"):
            return [(("i", {P_: 1}, (64, False)), st)]
        if q.endswith("FFInt::p_inv"):
            s = st.copy()
            return [(("i", {"p_inv": 1}, (64, False)), s)]
        if ity(n.t):
            s = st.copy()
            return [(self.fresh(s, n.t), s)]
        return [(("?",), st)]

    def cellref(self, n, st):
        """(object id) for x.n with x an FFInt"""
        if n.k == "Member" and n.name == "n" and "FFInt" in (n.d.get("q") or ""):
            outs = []
            for v, s in self.ev(n.c[0], st):
                outs.append((v[1] if v[0] == "o" else None, s))
            return outs
        return None

    def e_Member(self, n, st):
        c = self.cellref(n, st)
        if c is not None:
            out = []
            for o, s in c:
                if o is None:
                    s = s.copy()
                    x = self.canon(s, "elem")
                    self.C.unknown.update(x)
                    out.append((("i", x, (64, False)), s))
                elif s.cells[o] is None:
                    s = s.copy()
                    out.append((self.fresh(s, "unsigned long", "uninit"), s))
                else:
                    out.append((s.cells[o], s))
            return out
        q = n.d.get("q") or ""
        if q.endswith("FFInt::p"):
            return [(("i", {P_: 1}, (64, False)), st)]
        if q.endswith("FFInt::p_inv"):
            return [(("i", {"p_inv": 1}, (64, False)), st)]
        if ity(n.t):
            k = ("mem", txt(n))
            s = st.copy()
            if k not in s.env:
                s.env[k] = self.fresh(s, n.t, n.name or "m", False)
            return [(s.env[k], s)]
        return self.opaque(n, st)

    def e_Cast(self, n, st):
        out = []
        for v, s in self.ev(n.c[0], st):
            out += self.cast(v, n.t, s, n)
        return out

    def e_Paren(self, n, st):
        return self.ev(n.c[0], st)

    def e_Cond(self, n, st):
        out = []
        for v, s in self.ev(n.c[0], st):
            for b, s2 in self.split(v, s):
                out += self.ev(n.c[1 if b else 2], s2)
        return out

    def e_Un(self, n, st):
        if n.op == "*":
            return self.ev(n.c[0], st)
        if n.op == "&":
            return self.ev(n.c[0], st)
        out = []
        if n.op in ("++", "--"):
            for v, s in self.ev(n.c[0], st):
                if v[0] != "i":
                    return self.opaque(n.c[0], st)
                for nv, s2 in self.norm(("i", add(v[1], {1: 1 if n.op == "++" else -1}), v[2]), s):
                    s2 = self.store(n.c[0], nv, s2, n)
                    out.append((v if n.d.get("post") else nv, s2))
            return out
        for v, s in self.ev(n.c[0], st):
            if n.op == "!":
                out.append((("b", lambda q, v=v: [(not b, z) for b, z in self.split(v, q)]), s))
            elif n.op == "-" and v[0] == "i":
                out += self.arith(n, ("i", scale(v[1], -1), ity(n.t) or v[2]), s)
            elif n.op == "+":
                out.append((v, s))
            elif n.op == "~" and v[0] == "i":
                out += self.arith(n, ("i", add({1: -1}, v[1], -1), ity(n.t) or v[2]), s)
            elif n.op == "-" and v[0] == "z":
                out.append((("z", scale(v[1], -1)), s))
            else:
                out += self.opaque(n, s)
        return out

    def arith(self, n, v, st):
        """result of an operation: unsigned lazily, signed must not overflow"""
        w, s = v[2]
        if s:
            lo, hi = bounds(w, s)
            if not (st.entails(add(v[1], {1: -lo})) and st.entails(add({1: hi}, v[1], -1))):
                if not any(x in self.C.unknown for x in v[1]) and not (self.exact and any(x in self.C.prod for x in v[1])):
                    self.bad(n, "signed arithmetic can overflow for an admissible operand")
                t = st.add(add(v[1], {1: -lo}), add({1: hi}, v[1], -1))
                return [(v, t)] if t is not None else []
        return [(v, st)]

    def e_Bin(self, n, st):
        if n.op in ("&&", "||"):
            out = []
            for v, s in self.ev(n.c[0], st):
                for b, s2 in self.split(v, s):
                    if b == (n.op == "||"):
                        out.append((("b", lambda q, b=b: [(b, q)]), s2))
                    else:
                        for v2, s3 in self.ev(n.c[1], s2):
                            for b2, s4 in self.split(v2, s3):
                                out.append((("b", lambda q, b=b2: [(b, q)]), s4))
            return out
        if n.op == ",":
            return [x for v, s in self.ev(n.c[0], st) for x in self.ev(n.c[1], s)]
        out = []
        for a, s in self.ev(n.c[0], st):
            for b, s2 in self.ev(n.c[1], s):
                out += self.binop(n, n.op, a, b, n.t, s2)
        return out

    def binop(self, n, op, a, b, t, st):
        if op in ("==", "!=", "<", "<=", ">", ">="):
            if a[0] in ("i", "z") and b[0] in ("i", "z"):
                out = []
                for x, s in self.norm(a, st):
                    for y, s2 in self.norm(b, s):
                        out.append((("b", lambda q, x=x, y=y: self.cmp(q, op, x[1], y[1])), s2))
                return out
            return [(("b", lambda q: [(True, q.copy()), (False, q.copy())]), st)]
        if a[0] == "z" or b[0] == "z":
            return self.zop(op, a, b, st)
        if a[0] == "f" and b[0] == "f":
            good = a[3] and b[3] and bare(t) in ("long double", "__float128")
            if op == "*":
                return [(("f", pmul(a[1], b[1]), pmul(a[2], b[2]), good), st)]
            if op == "/":
                return [(("f", pmul(a[1], b[2]), pmul(a[2], b[1]), good), st)]
            return [(("?",), st)]
        w = ity(t)
        if a[0] == "b":
            return [y for v, s in self.cast(a, t, st, n) for y in self.binop(n, op, v, b, t, s)]
        if b[0] == "b":
            return [y for v, s in self.cast(b, t, st, n) for y in self.binop(n, op, a, v, t, s)]
        if a[0] != "i" or b[0] != "i" or w is None:
            s = st.copy()
            return [(self.fresh(s, t), s)]
        if op == "+":
            return self.arith(n, ("i", add(a[1], b[1]), w), st)
        if op == "-":
            return self.arith(n, ("i", add(a[1], b[1], -1), w), st)
        if op == "*":
            for x, y in ((a, b), (b, a)):
                k = const(x[1])
                if k is not None:
                    return self.arith(n, ("i", scale(y[1], k), w), st)
            s = st.copy()
            z = self.C.sym("prod", pmul(self.C.residue(a[1]), self.C.residue(b[1])))
            self.C.prod[z] = (a[1], b[1])
            e = {z: 1}
            if w[0] == 128 and not w[1]:
                s.cons += [{z: 1}, {z: -1, 1: (1 << 128) - 1}]
            elif st.entails(a[1]) and st.entails(b[1]):
                s.cons.append({z: 1})
            if w[1]:
                # signed products: no overflow assumed (checked by the caller's contract)
                lo, hi = bounds(*w)
                s.cons += [{z: 1, 1: -lo}, {z: -1, 1: hi}]
            return [(("i", e, w), s)]
        if op == "<<" and const(b[1]) is not None:
            return self.arith(n, ("i", scale(a[1], 1 << const(b[1])), w), st)
        if op in ("/", ">>", "%", "&"):
            out = []
            for x, s in self.norm(a, st):
                for y, s2 in self.norm(b, s):
                    out += self.divlike(n, op, x[1], y[1], w, s2)
            return out
        if op in ("^", "|"):
            s = st.copy()
            return [(self.fresh(s, t), s)]
        raise Unsup("operator " + op)

    def divlike(self, n, op, a, b, w, st):
        k = const(b)
        if op == ">>" and k is not None:
            op, k, b = "/", 1 << k, {1: 1 << k}
        if op == "&" and k is not None and k & (k + 1) == 0 and st.entails(a):
            op, k, b = "%", k + 1, {1: k + 1}
        if op == "&":
            s = st.copy()
            x = self.fresh(s, "unsigned long")
            return [(("i", x[1], w), s)]
        if const(a) is not None and k:
            q = abs(const(a)) // abs(k) * (1 if (const(a) >= 0) == (k > 0) else -1)
            v = q if op == "/" else const(a) - q * k
            return [(("i", {1: v} if v else {}, w), st)]
        s = st.copy()
        if k is not None and k > 0 and st.entails(a):
            hk = (key(a), k)
            if hk not in self.C.half:
                q, r = self.C.sym("q"), self.C.sym("r")
                self.C.half[hk] = (q, r)
            q, r = self.C.half[hk]
            rel = add(a, {q: k, r: 1}, -1)
            s.cons += [rel, scale(rel, -1), {q: 1}, {r: 1}, {r: -1, 1: k - 1}]
            if op == "%" and k == 1 << 0:
                return [(("i", {}, w), s)]
            self.C.res.setdefault(q, atom(q))
            return [(("i", {q if op == "/" else r: 1}, w), s)]
        if op == "%":
            ra = self.C.residue(a)
            pm = set(b) == {P_} and b[P_] == 1
            if pm and self.inrange(st, a):
                return [(("i", a, w), st)]
            lo, hi = {}, add(b, {1: -1})
            if not st.entails(a):
                lo = add({1: 1}, b, -1)
                if st.entails(scale(a, -1)):
                    hi = {}
            if not st.entails(add(b, {1: -1})):
                x = self.fresh(s, "unsigned long")
                return [(("i", x[1], w), s)]
            if not pm:
                q = self.quotient(a, b, w, s)
                ra = padd(ra, pmul(atom(q), self.C.residue(b)), -1)
            e = self.ranged(s, "rem", lo, hi, ra)
            if st.entails(a):
                s.cons.append(add(a, e, -1))
            return [(("i", e, w), s)]
        return [(("i", {self.quotient(a, b, w, s): 1}, w), s)]

    def quotient(self, a, b, w, s):
        z = ("div", key(a), key(b))
        q = next((x for x, y in self.C.quot.items() if y == z), None)
        if q is None:
            q = self.C.sym("quot")
            self.C.quot[q] = z
        if s.entails(a) and s.entails(b):
            s.cons += [{q: 1}, add(a, {q: 1}, -1)]
        else:
            lo, hi = bounds(*w)
            s.cons += [{q: 1, 1: -lo}, {q: -1, 1: hi}]
        return q

    def inrange(self, st, a):
        return st.entails(a) and st.entails(add({P_: 1, 1: -1}, a, -1))

    def zop(self, op, a, b, st):
        if a[0] not in ("z", "i") or b[0] not in ("z", "i"):
            return [(("?",), st)]
        x, y = a[1], b[1]
        if op == "+":
            return [(("z", add(x, y)), st)]
        if op == "-":
            return [(("z", add(x, y, -1)), st)]
        if op == "*":
            for u, v in ((x, y), (y, x)):
                if const(u) is not None:
                    return [(("z", scale(v, const(u))), st)]
            z = self.C.sym("prod", pmul(self.C.residue(x), self.C.residue(y)))
            return [(("z", {z: 1}), st)]
        if op == "%":
            out = []
            for sgn, s in self.cmp(st, ">=", x, {}):
                pm = set(y) == {P_} and y[P_] == 1
                if pm and self.inrange(s, x):
                    out.append((("z", x), s))
                    continue
                if not s.entails(add(y, {1: -1})):
                    return [(("?",), st)]
                s = s.copy()
                e = self.ranged(s, "rem", {} if sgn else add({1: 1}, y, -1), add(y, {1: -1}) if sgn else {}, self.C.residue(x) if pm else None)
                out.append((("z", e), s))
            return out
        return [(("?",), st)]

    # -- stores
    def store(self, target, v, st, n):
        t = strip(target)
        while t is not None and t.k == "Cast":
            t = strip(t.c[0])
        c = self.cellref(t, st)
        s = st.copy()
        if c is not None:
            if len(c) != 1:
                raise Unsup("ambiguous store")
            o, s = c[0]
            s = s.copy()
            if o is None:
                self.foreign(n, v, s)
                return s
            s.cells[o] = v
            return s
        if t.k == "Ref":
            d = t.d.get("d")
            if d in s.env and s.env[d] is not None and s.env[d][0] == "ref":
                d = s.env[d][1]
            if d in s.env and s.env[d] is not None and s.env[d][0] == "cell":
                s.cells[s.env[d][1]] = v
                return s
            if d in s.env:
                s.env[d] = v
                return s
            q = t.d.get("q", "")
            if q.endswith("FFInt::p") or q.endswith("FFInt::p_inv"):
                raise Unsup("field change")
            return s
        if t.k == "Cond":
            raise Unsup("conditional store")
        for k in [k for k in s.env if isinstance(k, tuple) and k[0] == "mem"]:
            del s.env[k]
        if t.k == "Member" and v[0] == "i":
            s.env[("mem", txt(t))] = v
        return s

    def foreign(self, n, v, st):
        if v[0] == "i" and not any(x in self.C.unknown for x in v[1]) and not self.inrange(st, v[1]):
            self.bad(n, "stores a value outside [0, p) into a field element")

    def e_Assign(self, n, st):
        out = []
        op = n.op[:-1]
        for b, s in self.ev(n.c[1], st):
            if op:
                for a, s2 in self.ev(n.c[0], s):
                    t = n.c[0].t
                    if a[0] == "i" and b[0] == "i" and a[2] != b[2]:
                        # usual arithmetic conversions
                        x = max(a[2], b[2], (32, True), key=lambda z: (z[0], not z[1]))
                        names = {(32, True): "int", (32, False): "unsigned int", (64, True): "long", (64, False): "unsigned long", (128, False): "unsigned __int128", (128, True): "__int128"}
                        t = names[x]
                        for a2, s3 in self.cast(a, t, s2, n):
                            for b2, s4 in self.cast(b, t, s3, n):
                                for v, s5 in self.binop(n, op, a2, b2, t, s4):
                                    for v2, s6 in self.cast(v, n.c[0].t, s5, n):
                                        out += self.put(n, v2, s6)
                        continue
                    for v, s3 in self.binop(n, op, a, b, t, s2):
                        out += self.put(n, v, s3)
            else:
                out += self.put(n, b, s)
        return out

    def put(self, n, v, st):
        out = []
        if v[0] == "b":
            for v2, s in self.cast(v, n.c[0].t, st, n):
                out.append((v2, self.store(n.c[0], v2, s, n)))
            return out
        for v2, s in self.norm(v, st):
            out.append((v2, self.store(n.c[0], v2, s, n)))
        return out

    # -- calls
    def e_Construct(self, n, st):
        a = n.args()
        if isff(n.t):
            if n.d.get("copy") or n.d.get("move") or len(a) == 1 and isff(a[0].t):
                out = []
                for v, s in self.ev(a[0], st):
                    s = s.copy()
                    out.append((self.newobj(s, s.cells[v[1]] if v[0] == "o" else None), s))
                return out
            f = self.P.callee(n)
            if f is None or f.raw.get("body") is None:
                return self.opaque_obj(n, st)
            s = st.copy()
            o = self.newobj(s)
            return [(o, s2) for _, s2 in self.call(f, a, o, s, n)]
        if "mpz_class" in n.t or "__gmp_expr" in n.t:
            if len(a) >= 1:
                out = []
                for v, s in self.ev(a[0], st):
                    if v[0] in ("i", "z", "str"):
                        out += [(("z", x[1]), s2) for x, s2 in (self.norm(v, s) if v[0] == "i" else [(v, s)])]
                    elif v[0] == "zref":
                        out.append((("z", v[1]), s))
                    else:
                        s = s.copy()
                        y = self.C.sym("z", None, True)
                        out.append((("z", {y: 1}), s))
                return out
            return [(("z", {}), st)]
        if "basic_string" in n.t and len(a) >= 1 and "stream" not in n.t:
            return self.ev(a[0], st)
        if "stringstream" in n.t and a:
            return [((("ss", v)), s) for v, s in self.ev(a[0], st)]
        return self.opaque(n, st)

    def e_Materialize(self, n, st):
        return self.ev(n.c[0], st)

    e_Temp = e_Bind = e_Clean = e_Materialize

    def opaque_obj(self, n, st):
        s = st.copy()
        e = self.canon(s, "obj")
        self.C.unknown.update(e)
        return [(self.newobj(s, ("i", e, (64, False))), s)]

    def seq(self, args, st):
        outs = [([], st)]
        for a in args:
            nx = []
            for vs, s in outs:
                for v, s2 in self.ev(a, s):
                    nx.append((vs + [v], s2))
            outs = nx
        return outs

    def e_Call(self, n, st):
        name = n.name or ""
        a = n.args()
        f = self.P.callee(n)
        if name in CONTRACT or name in ("mod_mul", "mod_inv", "mod_pow"):
            out = []
            for vs, s in self.seq(a, st):
                outs = [([], s)]
                for i, v in enumerate(vs):
                    nx = []
                    for l, q in outs:
                        for v2, q2 in self.norm(v, q):
                            nx.append((l + [v2], q2))
                    outs = nx
                for l, q in outs:
                    out += self.contract(n, name, l, q)
            return out
        # assignment of field elements
        if name == "operator=" and len(a) == 2 and isff(a[0].t):
            out = []
            for vs, s in self.seq([a[1], a[0]], st):
                s = s.copy()
                if vs[0][0] == "o" and vs[1][0] == "o":
                    s.cells[vs[1][1]] = s.cells[vs[0][1]]
                out.append((vs[1], s))
            return out
        if name == "sgn" and len(a) == 1:
            out = []
            for v, s in self.ev(a[0], st):
                if v[0] not in ("z", "i"):
                    out.append((self.fresh(s, n.t), s))
                    continue
                for k, lo in ((-1, [add(scale(v[1], -1), {1: -1})]), (0, [v[1], scale(v[1], -1)]), (1, [add(v[1], {1: -1})])):
                    t = s.add(*lo)
                    if t is not None:
                        out.append((("i", {1: k} if k else {}, (32, True)), t))
            return out
        if name == "to_string" and len(a) == 1:
            return [(("str", x[1]) if x[0] == "i" else ("?",), s2) for v, s in self.ev(a[0], st) for x, s2 in self.norm(v, s)]
        if name in ("stoull", "stoul") and a:
            out = []
            for v, s in self.ev(a[0], st):
                if v[0] == "str" and v[1] is not None:
                    x = ("i", v[1], (64, False))
                    if not (s.entails(v[1]) and s.entails(add({1: W64 - 1}, v[1], -1))):
                        if not any(y in self.C.unknown for y in v[1]):
                            self.bad(n, "converts text of a number that need not fit 64 bits without sign")
                        s = s.copy()
                        x = self.fresh(s, "unsigned long")
                    out.append((x, s))
                else:
                    s = s.copy()
                    out.append((self.fresh(s, "unsigned long"), s))
            return out
        obj = n.obj
        if obj is not None and name in ("get_str", "get_ui", "get_si"):
            out = []
            for v, s in self.ev(obj, st):
                if name == "get_str":
                    out.append((("str", v[1]) if v[0] == "z" else ("?",), s))
                elif v[0] == "z":
                    w = (64, name == "get_si")
                    out += self.norm(("i", v[1], w), s) if name == "get_si" else self.zui(v[1], s)
                else:
                    out += self.opaque(n, s)
            return out
        if obj is not None and name == "substr" and len(a) == 2:
            out = []
            for vs, s in self.seq(a, st):
                d = None
                if vs[1][0] == "i":
                    for k in range(1, 40):
                        if s.entails(add({1: k}, vs[1][1], -1)):
                            d = k
                            break
                out.append((("dig", d), s))
            return out
        if name == "operator=" and len(a) == 2 and ("mpz_class" in a[0].t or "__gmp_expr" in a[0].t):
            out = []
            for v, s in self.ev(a[1], st):
                if v[0] == "i":
                    v = ("z", v[1])
                out.append((v, self.store(a[0], v, s, n)))
            return out
        if n.op in ("+=", "-=", "*=", "%=") and len(a) == 2 and ("mpz_class" in a[0].t or "__gmp_expr" in a[0].t):
            out = []
            for vs, s in self.seq(a, st):
                for v, s2 in self.zop(n.op[0], vs[0], vs[1], s):
                    out.append((v, self.store(a[0], v, s2, n)))
            return out
        if n.op in ("+", "-", "*", "%", "<", ">", "<=", ">=", "==", "!=") and a and any("mpz_class" in x.t or "__gmp_expr" in x.t for x in a):
            out = []
            for vs, s in self.seq(a, st):
                if len(vs) == 1 and vs[0][0] == "z":
                    out.append((("z", scale(vs[0][1], -1 if n.op == "-" else 1)), s))
                elif len(vs) == 2:
                    out += self.binop(n, n.op, vs[0], vs[1], n.t, s)
                else:
                    out.append((("?",), s))
            return out
        if n.op == ">>" and len(a) == 2 and ity(a[1].t):
            out = []
            for v, s in self.ev(a[0], st):
                s = s.copy()
                x = self.fresh(s, a[1].t, "read", False)
                if v[0] == "ss" and v[1][0] == "dig" and v[1][1]:
                    s.cons.append(add({1: 10 ** v[1][1] - 1}, x[1], -1))
                out.append((v, self.store(a[1], x, s, n)))
            return out
        if name in ("max", "min") and len(a) == 2 and ity(n.t):
            out = []
            for vs, s in self.seq(a, st):
                if vs[0][0] == "i" and vs[1][0] == "i":
                    for b, s2 in self.cmp(s, ">=", vs[0][1], vs[1][1]):
                        out.append((vs[0] if b == (name == "max") else vs[1], s2))
                else:
                    out.append((self.fresh(s, n.t), s))
            return out
        if name == "swap" and len(a) == 2 and ity(a[0].t):
            out = []
            for vs, s in self.seq(a, st):
                s = self.store(a[0], vs[1], s, n)
                s = self.store(a[1], vs[0], s, n)
                out.append((("?",), s))
            return out
        if name in ("move", "forward") and len(a) == 1:
            return self.ev(a[0], st)
        if f is not None and f.raw.get("body") is not None and "/source/" in f.file and self.relevant(f, n):
            this = None
            pre = [(None, st)]
            if obj is not None:
                pre = self.ev(obj, st)
            elif f.kind == "method" and a and (n.op or name.startswith("operator")) and len(a) == len(f.params) + 1:
                pre = self.ev(a[0], st)
                a = a[1:]
            out = []
            for this, s in pre:
                out += self.call(f, a, this, s, n)
            return out
        if isff(n.t):
            return self.opaque_obj(n, st)
        return self.opaque_call(n, st)

    def zui(self, e, st):
        out = []
        for b, s in self.cmp(st, ">=", e, {}):
            out += self.norm(("i", e if b else scale(e, -1), (64, False)), s)
        return out

    def relevant(self, f, n):
        return isff(n.t) or ity(n.t) is not None or bare(n.t) == "void" or any(isff(p.t) for p in f.params)

    def opaque_call(self, n, st):
        pre = [x for x in [n.obj] + n.args() if x is not None and x.k != "Lambda"]
        out = []
        for vs, s in self.seq(pre, st):
            for v, s2 in self.opaque_call1(n, s):
                if any(x[0] == "z" for x in vs):
                    s2.cells["#guess"] = True     # what is known of a big number got lost
                out.append((v, s2))
        return out

    def opaque_call1(self, n, st):
        s = st.copy()
        for i, x in enumerate(n.args()):
            t = n.pt[i] if i < len(n.pt) else ""
            if "&" in t and not t.startswith("const"):
                u = strip(x)
                if u is not None and u.k == "Ref" and u.d.get("d") in s.env:
                    s.env[u.d["d"]] = self.fresh(s, u.t) if ity(u.t) else ("?",)
        return [(self.fresh(s, n.t) if ity(n.t) else ("?",), s)]

    def contract(self, n, name, v, st):
        for x in v:
            if x[0] != "i":
                s = st.copy()
                return [(self.fresh(s, n.t), s)]
        C = self.C
        e = [x[1] for x in v]
        unk = any(y in C.unknown for x in e for y in x)
        s = st.copy()
        mod = {"n_mulmod2_preinv": 2, "n_mulmod2": 2, "mod_mul": 2, "n_invmod": 1, "mod_inv": 1, "n_powmod2_preinv": 2, "n_powmod2_ui_preinv": 2, "n_powmod2": 2, "mod_pow": 2,
               "n_addmod": 2, "n_submod": 2, "n_negmod": 1, "n_mod2_preinv": 1, "n_preinvert_limb": None}[name]
        if mod is None:
            x = self.fresh(s, "unsigned long")
            return [(x, s)]
        m = e[mod]
        if m != {P_: 1} and self.modulus is not None and m != self.modulus:
            self.bad(n, "%s reduces by something else than the prime of the field" % name)
        if m != {P_: 1}:
            if not unk and not any(y in C.unknown for y in m):
                self.bad(n, "%s reduces by something else than the prime of the field" % name)
            x = self.fresh(s, "unsigned long")
            return [(x, s)]
        if name.endswith("preinv") and e[mod + 1] != {"p_inv": 1}:
            self.bad(n, "%s gets something else than the inverse of the prime" % name)
        need = {"n_mulmod2_preinv": (), "n_mulmod2": (), "mod_mul": (0, 1), "n_invmod": (0,), "mod_inv": (0,), "n_powmod2_preinv": (0,), "n_powmod2_ui_preinv": (0,), "n_powmod2": (0,),
                "mod_pow": (0,), "n_addmod": (0, 1), "n_submod": (0, 1), "n_negmod": (0,), "n_mod2_preinv": ()}[name]
        for i in need:
            if not self.inrange(st, e[i]) and not any(y in C.unknown for y in e[i]):
                self.bad(n, "%s needs an operand below the modulus" % name)
        r = [C.residue(x) for x in e]
        if name in ("n_mulmod2_preinv", "n_mulmod2", "mod_mul"):
            res = pmul(r[0], r[1])
        elif name in ("n_invmod", "mod_inv"):
            if name == "n_invmod" and st.entails(scale(e[0], -1)) and not unk:
                self.bad(n, "n_invmod is asked for the inverse of zero")
            elif name == "n_invmod" and not st.entails(add(e[0], {1: -1})) and not unk:
                self.bad(n, "n_invmod can be asked for the inverse of zero")
            res = {} if st.zero(e[0]) else atom(("inv", key(r[0])))
        elif "pow" in name:
            res = atom(("pow", key(r[0]), key(e[1])))
        elif name == "n_addmod":
            res = padd(r[0], r[1])
        elif name == "n_submod":
            res = padd(r[0], r[1], -1)
        elif name == "n_negmod":
            res = padd({}, r[0], -1)
        else:
            res = r[0]
        x = self.ranged(s, name, {}, {P_: 1, 1: -1}, res)
        return [(("i", x, (64, False)), s)]

    modulus = None
    exact = False

    def call(self, f, args, this, st, n, depth=[0]):
        if depth[0] > DEPTH:
            raise Unsup("call depth")
        depth[0] += 1
        try:
            out = []
            for vs, s in self.seq(args, st):
                s = s.copy()
                saved = s.env
                env = {}
                ok = [(env, s)]
                for p, v, an in itertools.zip_longest(f.params, vs, args):
                    if p is None or v is None:
                        raise Unsup("arguments of " + f.n)
                    isref = "&" in p.t and not p.t.strip().startswith("const")
                    if isref and not isff(p.t):
                        u = strip(an)
                        if u is None or u.k != "Ref" or u.d.get("d") not in saved:
                            if ity(p.t):
                                raise Unsup("reference argument of " + f.n)
                    nx = []
                    for e2, q in ok:
                        for v2, q2 in (self.norm(v, q) if v[0] == "i" else [(v, q)]):
                            e3 = dict(e2)
                            if isff(p.t) and "&" not in p.t and v2[0] == "o":
                                q2 = q2.copy()
                                v2 = self.newobj(q2, q2.cells[v2[1]])
                            e3[p.d] = v2
                            nx.append((e3, q2))
                    ok = nx
                for e2, q in ok:
                    q = q.copy()
                    q.env = e2
                    if this is not None:
                        q.env["this"] = this
                    for s2 in self.fn(f, q):
                        if s2.done == "throw":
                            continue
                        s2 = s2.copy()
                        ret, s2.ret, s2.done = s2.ret, None, None
                        back = dict(saved)
                        for p, an in zip(f.params, args):
                            if "&" in p.t and not p.t.strip().startswith("const") and not isff(p.t):
                                u = strip(an)
                                if u is not None and u.k == "Ref" and u.d.get("d") in back and ity(p.t):
                                    back[u.d["d"]] = s2.env.get(p.d)
                        s2.env = back
                        out.append((ret if ret is not None else ("?",), s2))
            return out
        finally:
            depth[0] -= 1

    # -- statements: list of states, state.done marks leaving
    def fn(self, f, st):
        cur = [st]
        for m, name, w, e, b in f.inits:
            nx = []
            for s in cur:
                if e is None:
                    nx.append(s)
                    continue
                for v, s2 in self.ev(e, s):
                    s2 = s2.copy()
                    if name == "n" and s2.env.get("this", ("?",))[0] == "o":
                        for v3, s3 in self.norm(v, s2):
                            s3 = s3.copy()
                            s3.cells[s3.env["this"][1]] = v3
                            nx.append(s3)
                    else:
                        if b is not None and isff(b) and v[0] == "o" and s2.env.get("this", ("?",))[0] == "o":
                            s2.cells[s2.env["this"][1]] = s2.cells[v[1]]
                        nx.append(s2)
            cur = nx
        out = []
        for s in cur:
            out += self.run(f.body, s, f)
        return out

    def run(self, n, st, f):
        if n is None or st.done:
            return [st]
        k = n.k
        if k == "Compound":
            cur = [st]
            for c in n.args():
                nx = []
                for s in cur:
                    nx += [s] if s.done else self.run(c, s, f)
                cur = nx
                if len(cur) > 400:
                    raise Unsup("too many traces")
            return cur
        if k == "If":
            out = []
            pre = [st]
            for x in n.c[3:]:
                if x is not None:
                    pre = [q for s in pre for q in self.run(x, s, f)]
            for s0 in pre:
                for v, s in self.ev(n.c[0], s0):
                    for b, s2 in self.split(v, s):
                        out += self.run(n.c[1] if b else n.c[2], s2, f)
            return out
        if k == "Return":
            a = n.args()
            if not a:
                s = st.copy()
                s.done = "ret"
                return [s]
            out = []
            for v, s in self.ev(a[0], st):
                t = f.ret
                if ity(t) and v[0] in ("i", "b"):
                    lst = [y for x, q in self.cast(v, t, s, n) for y in ([(x, q)] if x[0] == "b" else self.norm(x, q))]
                    if v[0] == "b" and ity(t)[0] == 1:
                        lst = [(v, s)]
                else:
                    lst = [(v, s)]
                for x, q in lst:
                    q = q.copy()
                    if isff(t) and "&" not in t and x[0] == "i":
                        raise Unsup("implicit conversion")
                    q.ret, q.done = x, "ret"
                    out.append(q)
            return out
        if k == "Throw":
            s = st.copy()
            s.done = "throw"
            return [s]
        if k == "Decl":
            cur = [st]
            for v in n.vars:
                nx = []
                for s in cur:
                    if v.init is None:
                        s = s.copy()
                        s.env[v.d] = self.newobj(s) if isff(v.t) else None
                        nx.append(s)
                        continue
                    for x, s2 in self.ev(v.init, s):
                        isref = "&" in v.t
                        for x2, s3 in ([y for z, q in self.cast(x, v.t, s2, n) for y in self.norm(z, q)] if ity(v.t) and x[0] in ("i",) else [(x, s2)]):
                            s3 = s3.copy()
                            u = strip(v.init)
                            if isref and not v.t.strip().startswith("const") and u is not None and u.k == "Ref" and u.d.get("d") in s3.env and not isff(v.t):
                                s3.env[v.d] = ("ref", u.d["d"])
                            elif isref and u is not None and u.k == "Member" and ity(v.t) == (64, False) and (self.cellref(u, s3) or [(None, 0)])[0][0] is not None:
                                c = self.cellref(u, s3)
                                if len(c) != 1:
                                    raise Unsup("ambiguous reference")
                                s3.env[v.d] = ("cell", c[0][0])
                            elif isref and not v.t.strip().startswith("const") and ity(v.t):
                                raise Unsup("reference to an untraced object")
                            else:
                                s3.env[v.d] = x2
                            nx.append(s3)
                cur = nx
            return cur
        if k in ("While", "For", "Do", "ForRange"):
            return self.loop(n, st, f)
        if k in ("Break", "Continue"):
            s = st.copy()
            s.done = k.lower()
            return [s]
        if k in ("Null", "Empty", "NullStmt"):
            return [st]
        if k in ("Switch", "Goto", "Try", "Case", "Label"):
            raise Unsup(k)
        return [s for _, s in self.ev(n, st)]

    def loop(self, n, st, f):
        if n.k == "ForRange":
            body = [x for x in n.c if x is not None and x.k == "Compound"]
            decl = n.c[0]
            assigned = self.assigned(n, False)
            if not body or decl is None:
                raise Unsup("range loop")
            s = st.copy()
            for d, t in assigned.items():
                if d in s.env:
                    s.env[d] = self.fresh(s, t) if ity(t) else ("?",)
            skip = s.copy()
            for v in decl.vars:
                s.env[v.d] = self.fresh(s, v.t) if ity(v.t) else ("?",)
            outs = [skip]
            for b in body:
                for q in self.run(b, s, f):
                    if q.done in ("ret", "throw"):
                        outs.append(q)
                    else:
                        for o in q.cells:
                            if o in st.cells and q.cells[o] != st.cells[o] and skip.cells[o] == st.cells[o]:
                                raise Unsup("element changed in a loop")
            return outs
        cur = [st]
        if n.k == "For":
            init, cond, inc, body = (list(n.c) + [None] * 4)[:4]
            if init is not None:
                cur = self.run(init, st, f)
        elif n.k == "While":
            cond, body, inc = n.c[0], n.c[1], None
            if body is None and len(n.c) > 2:
                body = n.c[2]
        else:
            body, cond, inc = n.c[0], n.c[1], None
        out = []
        for s in cur:
            out += self.loop1(n, s, f, cond, body, inc)
        return out

    def assigned(self, n, strict=True):
        r = {}
        for x in n.walk():
            t = None
            if x.k == "Assign" or x.k == "Un" and x.op in ("++", "--"):
                t = strip(x.c[0])
                if strict and t is not None and t.k == "Member" and t.name == "n":
                    raise Unsup("element changed in a loop")
            elif x.k == "Call" and x.op in (">>", "=", "+=", "-=", "*=", "/=", "%=") and x.args():
                t = strip(x.args()[-1] if x.op == ">>" else x.args()[0])
                if strict and t is not None and isff(t.t):
                    raise Unsup("element changed in a loop")
            elif x.k == "Call":
                for i, y in enumerate(x.args()):
                    pt = x.pt[i] if i < len(x.pt) else ""
                    if "&" in pt and not pt.strip().startswith("const"):
                        u = strip(y)
                        if u is not None and u.k == "Ref" and u.d.get("d"):
                            r[u.d["d"]] = u.t
            if t is not None and t.k == "Ref" and t.d.get("d"):
                r[t.d["d"]] = t.t
        return r

    def loop1(self, n, st, f, cond, body, inc):
        mod = {d: t for d, t in self.assigned(n).items() if d in st.env}
        for d, t in mod.items():
            if not ity(t) and "basic_string" not in t and "stream" not in t:
                raise Unsup("loop over " + t)
        if any(st.env[d] is not None and st.env[d][0] in ("ref", "cell") for d in mod):
            raise Unsup("loop writing through a reference")
        ints = [d for d in mod if ity(mod[d])]
        live = [d for d in ints if st.env[d] is not None and st.env[d][0] == "i"]
        lits = sorted({int(x.cv) for x in f.walk() if x.cv is not None and re.match(r"-?\d+$", str(x.cv)) and 0 <= int(x.cv) < 1 << 63})[:12]
        cand = {}
        for d in live:
            e = st.env[d][1]
            c = []
            for k in lits:
                if st.entails(add({1: k}, e, -1)):
                    c.append(("le", {1: k} if k else {}))
                if st.entails(add(e, {1: -k})):
                    c.append(("ge", {1: k} if k else {}))
            for u in ({P_: 1}, {P_: 1, 1: -1}):
                if st.entails(add(u, e, -1)):
                    c.append(("le", u))
            cand[d] = c
        for rnd in range(12):
            head = st.copy()
            hs = {}
            for d in ints:
                if d not in live:
                    head.env[d] = None
                    continue
                x = self.fresh(head, mod[d], "loop_" + re.sub(r".*:", "", str(d)), False)
                head.env[d] = x
                hs[d] = next(iter(x[1]))
                for kind, e in cand[d]:
                    head.cons.append(add(e, {hs[d]: 1}, -1) if kind == "le" else add({hs[d]: 1}, e, -1))
            for d in mod:
                if d not in ints:
                    head.env[d] = ("?",)
            if self.summary is not None:
                pass
            probs = len(self.problems)
            ends, leave, outs = [], [], []
            starts = []
            if cond is not None and n.k != "Do":
                for v, s in self.ev(cond, head):
                    for b, s2 in self.split(v, s):
                        (starts if b else leave).append(s2)
            else:
                starts = [head]
            for s in starts:
                for q in self.run(body, s, f):
                    if q.done in ("ret", "throw"):
                        outs.append(q)
                        continue
                    if q.done == "break":
                        q = q.copy()
                        q.done = None
                        leave.append(q)
                        continue
                    q = q.copy()
                    q.done = None
                    if inc is not None:
                        ends += [x for _, x in self.ev(inc, q)]
                    else:
                        ends.append(q)
            if n.k == "Do" and cond is not None:
                nx = []
                for q in ends:
                    for v, s in self.ev(cond, q):
                        for b, s2 in self.split(v, s):
                            (nx if b else leave).append(s2)
                ends = nx
            changed = False
            for d in live:
                keep = []
                for kind, e in cand[d]:
                    okc = True
                    for q in ends:
                        v = q.env.get(d)
                        if v is None or v[0] != "i" or not q.entails(add(e, v[1], -1) if kind == "le" else add(v[1], e, -1)):
                            okc = False
                            break
                    if okc:
                        keep.append((kind, e))
                if len(keep) != len(cand[d]):
                    cand[d] = keep
                    changed = True
            if not changed:
                break
            del self.problems[probs:]
        if self.summary is not None:
            self.summary(self, n, st, hs, ends, leave, live)
        else:
            self.C.unknown.update(hs.values())
        return outs + leave


CONTRACT = {"n_mulmod2_preinv", "n_mulmod2", "n_invmod", "n_powmod2_preinv", "n_powmod2_ui_preinv", "n_powmod2", "n_addmod", "n_submod", "n_negmod", "n_mod2_preinv", "n_preinvert_limb"}


# ------------------------------------------------------------------ loops with a known invariant
def value(q, d):
    v = q.env.get(d)
    return v[1] if v is not None and v[0] == "i" else None


def vanishes(itp, q, d):
    """residue polynomial d is 0 on the trace: True, False, or None when unknown"""
    r = {}
    for m, v in d.items():
        zero = False
        out = []
        for a in m:
            if isinstance(a, str) and a in itp.C.res and itp.C.res[a] == atom(a):
                if q.zero({a: 1}):
                    zero = True
                    break
                if q.zero({a: 1, 1: -1}):
                    continue
            out.append(a)
        if not zero:
            r = padd(r, {tuple(out): v})
    if not r:
        return True
    if all(len(m) <= 1 for m in r) and all(isinstance(a, str) for m in r for a in m):
        e = {(m[0] if m else 1): v for m, v in r.items()}
        if any(q.zero(add(e, {P_: k})) for k in (0, 1, -1, 2, -2)):
            return True
    # a remainder known to be 0 on this trace: what it was the remainder of vanishes
    for s in {x for c in q.cons for x in c if x != 1 and x in itp.C.res}:
        z = itp.C.res[s]
        if s != P_ and z and z != atom(s) and q.zero({s: 1}) and any(not padd(d, z, k) for k in (1, -1)):
            return True
    if any(a in itp.C.unknown for m in r for a in m):
        return None
    return False


def s_pow(res):
    def run(itp, n, st, hs, ends, leave, live):
        C = itp.C
        E = None
        for d in live:
            x = hs[d]
            ks = [v for (k, m), v in C.half.items() if k == key({x: 1}) and m == 2]
            if ks and ends and all(value(q, d) == {ks[0][0]: 1} for q in ends):
                E, bit = d, ks[0][1]
                half = ks[0][0]
        if E is None:
            res.append("note")
            C.unknown.update(hs.values())
            return
        for R, B in itertools.permutations([d for d in live if d != E], 2):
            r0, b0, e0 = st.env[R][1], st.env[B][1], st.env[E][1]
            ok = bool(ends) and all(q.zero({hs[E]: 1}) for q in leave)
            for q in ends:
                r1, b1 = value(q, R), value(q, B)
                if r1 is None or b1 is None:
                    ok = False
                    break
                one, nil = q.zero({bit: 1, 1: -1}), q.zero({bit: 1})
                want = pmul(atom(hs[R]), atom(hs[B])) if one else atom(hs[R]) if nil else None
                if want is None or padd(C.residue(r1), want, -1):
                    ok = False
                    break
                if not q.zero({half: 1}) and padd(C.residue(b1), pmul(atom(hs[B]), atom(hs[B])), -1):
                    ok = False
                    break
            if ok:
                if C.residue(r0) == ONE:
                    C.res[hs[R]] = atom(("pow", key(C.residue(b0)), key(e0)))
                    res.append("ok")
                else:
                    res.append("start")
                return
        res.append("bad")
    return run


def s_inv(res):
    def sub(p, m, a):
        r = {}
        for mono, v in p.items():
            t = {(): v}
            for x in mono:
                t = pmul(t, pmul(atom(m[x]), a) if x in m else atom(x))
            r = padd(r, t)
        return r

    def run(itp, n, st, hs, ends, leave, live):
        C = itp.C
        if len(live) != 4 or not ends:
            res.append("note")
            C.unknown.update(hs.values())
            return
        a = itp.arg
        why = []
        for T, N, R, W in itertools.permutations(live):
            r0 = {d: C.residue(st.env[d][1]) for d in live}
            if padd(r0[R], pmul(r0[T], a), -1) or padd(r0[W], pmul(r0[N], a), -1) or not all(q.zero({hs[W]: 1}) for q in leave):
                continue
            ok = True
            m = {hs[R]: hs[T], hs[W]: hs[N]}
            for q in ends:
                v = {d: value(q, d) for d in live}
                if any(x is None for x in v.values()):
                    ok = False
                    break
                r = {d: C.residue(v[d]) for d in live}
                if padd(sub(r[R], m, a), pmul(sub(r[T], m, a), a), -1) or padd(sub(r[W], m, a), pmul(sub(r[N], m, a), a), -1):
                    ok = False
                    why.append("the coefficient is not updated like the remainder")
                    break
                qs = [s for s, z in C.quot.items() if z == ("div", key({hs[R]: 1}), key({hs[W]: 1}))]
                if v[R] != {hs[W]: 1} or not any(padd(r[W], padd(atom(hs[R]), pmul(atom(s), atom(hs[W])), -1), -1) == {} for s in qs):
                    ok = False
                    why.append("the remainders are not those of the Euclidean algorithm")
                    break
            if ok:
                for q in leave:
                    q.cons += [{hs[T]: 1, P_: 1, 1: -1}, {hs[T]: -1, P_: 1, 1: -1}]
                C.res[hs[T]] = atom(("inv", key(a)))
                res.append("ok")
                return
        res.append("bad")
    return run


def s_parse(res):
    def run(itp, n, st, hs, ends, leave, live):
        C = itp.C
        reads = None
        for d in live:
            poly = [C.residue(value(q, d)) if value(q, d) is not None else None for q in ends]
            if not poly or any(x is None for x in poly) or not any(isinstance(a, str) and a.startswith("read#") for x in poly for m in x for a in m):
                continue
            reads = d
            for q, x in zip(ends, poly):
                rs = [m for m in x if len(m) == 1 and isinstance(m[0], str) and m[0].startswith("read#")]
                k = x.get((hs[d],), 0)
                rest = {m: v for m, v in x.items() if m != (hs[d],) and m not in rs}
                lens = [const(value(q, o)) for o in live if o != d and value(q, o) is not None and const(value(q, o)) is not None]
                if rest:
                    res.append("note")
                elif len(rs) != 1 or x[rs[0]] != 1:
                    res.append("bad")
                elif q.zero({hs[d]: 1}):
                    res.append("ok")
                elif k == 0:
                    res.append("bad")
                else:
                    res.append("ok" if any(0 < c < 20 and k == 10 ** c for c in lens) else "bad" if lens else "note")
        if reads is None:
            res.append("note")
            C.unknown.update(hs.values())
    return run


# ------------------------------------------------------------------ the obligations
REL = {"operator==": "==", "operator!=": "!=", "operator<": "<", "operator<=": "<=", "operator>": ">", "operator>=": ">="}


def family(P):
    seen = {}
    for f in P.fns.values():
        if f.raw.get("body") is None or "/units/" in f.file or f.parent_fn is not None or "/source/" not in f.file:
            continue
        if f.recn == "FFInt" or re.search(r"/FFInt\.(cpp|hpp)$", f.file) and (any(isff(p.t) for p in f.params) or isff(f.ret) or f.n in ("mod_mul", "mod_inv", "mod_pow")):
            seen.setdefault((f.q, tuple(p.t for p in f.params), f.flag("const")), f)
    return list(seen.values())


def sig(f):
    return "%s(%s)" % (f.q.replace("firefly::", ""), ", ".join(bare(p.t) for p in f.params))


class Check:
    def __init__(self, ctx, P, cfg):
        self.ctx, self.P, self.cfg = ctx, P, cfg

    def analyse(self, f, alias=False):
        itp = I(self.P)
        st = itp.base()
        C = itp.C
        member = f.kind in ("method", "ctor", "conv") and f.recn == "FFInt" and not f.flag("static")
        this = None
        A = B = None
        if member:
            if f.kind == "ctor":
                this = itp.newobj(st)
            else:
                e = itp.canon(st, "a")
                this = itp.newobj(st, ("i", e, (64, False)))
                A = e
            st.env["this"] = this
        low = f.n in ("mod_mul", "mod_inv", "mod_pow") and f.recn != "FFInt"
        first = this
        pv = []
        for i, p in enumerate(f.params):
            if isff(p.t):
                if alias and first is not None:
                    v = first if "&" in p.t else itp.newobj(st, st.cells[first[1]])
                else:
                    v = itp.newobj(st, ("i", itp.canon(st, "b"), (64, False)))
                first = first or v
            elif low and i == len(f.params) - 1:
                v = ("i", {P_: 1}, (64, False))
            elif low and not (f.n == "mod_pow" and i == 1):
                v = ("i", itp.canon(st, "x"), (64, False))
            elif ity(p.t):
                v = itp.fresh(st, p.t, "t", False)
                if f.n == "pow" and "flint" in self.cfg and ity(p.t) == (64, False):
                    st.cons.append(add({1: (1 << 63) - 1}, v[1], -1))
            elif "mpz_class" in p.t or "__gmp_expr" in p.t:
                v = ("z", {C.sym("z"): 1})
            else:
                v = ("?",)
            pv.append(v)
            st.env[p.d] = v
        inv = []
        if low and f.n == "mod_pow":
            itp.summary = s_pow(inv)
        if low and f.n == "mod_inv":
            itp.summary = s_inv(inv)
            itp.exact = True
            itp.arg = C.residue(pv[0][1]) if pv and pv[0][0] == "i" else {}
        if f.n == "parse_longint":
            itp.summary = s_parse(inv)
        start = dict(st.cells)
        outs = itp.fn(f, st)
        return itp, this, pv, start, outs, inv

    def run(self, f, alias=False):
        ctx = self.ctx
        name = sig(f) + (" on the same object" if alias else "")
        tag = "%s: %s" % (self.cfg, name)
        kk = "%s%s" % (re.sub(r"[^A-Za-z0-9_=+*/<>!-]+", ".", sig(f)), ".alias" if alias else "")
        kk = f.n + "." + str(len(f.params)) if f.kind == "ctor" and ity(f.params[0].t if f.params else "") else kk
        where = f.loc()
        try:
            itp, this, pv, start, outs, inv = self.analyse(f, alias)
        except Unsup as e:
            ctx.notes.append("%s not decided: %s" % (tag, e))
            return
        C = itp.C
        for loc, what in itp.problems:
            ctx.bad("range", "%s.op" % kk, loc or where, "%s: %s" % (name, what))
        if "bad" in inv:
            ctx.bad("residue", kk + ".loop", where, "%s: the loop does not preserve its invariant" % name)
        elif "start" in inv:
            ctx.bad("residue", kk + ".start", where, "%s: the product does not start at one" % name)
        elif "note" in inv:
            ctx.notes.append("%s: loop not recognised" % tag)
        live = [q for q in outs if q.done != "throw"]
        if not live:
            ctx.notes.append("%s never returns" % tag)
            return
        resA = None
        if f.kind != "ctor" and this is not None:
            resA = C.residue(start[this[1]][1])
        ffp = [v for p, v in zip(f.params, pv) if isff(p.t)]
        if resA is None and ffp:
            resA = C.residue(start[ffp[0][1]][1])
            ffp = ffp[1:]
        resB = C.residue(start[ffp[0][1]][1]) if ffp else None
        opn = f.n[8:] if f.n.startswith("operator") else f.n
        want_this = want_ret = None
        arith = lambda op: {"+": lambda: padd(resA, resB), "-": lambda: padd(resA, resB, -1), "*": lambda: pmul(resA, resB)}[op]()
        post = f.kind == "method" and opn in ("++", "--") and len(f.params) == 1
        if f.kind == "ctor":
            if not f.params:
                want_this = lambda q: {}
            elif len(f.params) == 1 and isff(f.params[0].t):
                want_this = lambda q: resA
            elif len(f.params) == 1 and pv[0][0] in ("i", "z"):
                want_this = lambda q: C.residue(pv[0][1])
        elif opn in ("+=", "-=", "*=") and resB is not None:
            want_this = want_ret = lambda q: arith(opn[0])
        elif opn in ("+", "-", "*") and resB is not None:
            want_ret = lambda q: arith(opn)
        elif opn in ("/=", "/") and resB is not None:
            eb = start[ffp[0][1]][1]
            want_ret = lambda q: {} if q.zero(eb) else pmul(resA, atom(("inv", key(resB))))
            if opn == "/=":
                want_this = want_ret
        elif opn == "-" and not f.params:
            want_ret = lambda q: padd({}, resA, -1)
        elif opn == "+" and not f.params:
            want_ret = lambda q: resA
        elif opn in ("++", "--"):
            d = padd(resA, ONE, 1 if opn == "++" else -1)
            want_this = lambda q: d
            want_ret = (lambda q: resA) if post else want_this
        elif f.n == "mod_mul":
            want_ret = lambda q: pmul(C.residue(pv[0][1]), C.residue(pv[1][1]))
        elif f.n == "mod_inv" and "ok" in inv:
            want_ret = lambda q: atom(("inv", key(C.residue(pv[0][1]))))
        elif f.n == "mod_pow" and "ok" in inv:
            want_ret = lambda q: atom(("pow", key(C.residue(pv[0][1])), key(pv[1][1])))
        if f.kind != "ctor" and this is not None and want_this is None and not f.flag("static"):
            want_this = lambda q: resA
        if opn == "=":
            want_this = lambda q: resB if resB is not None else resA
            want_ret = None
        done = 0
        for q in live:
            if this is not None:
                self.value(itp, q, q.cells[this[1]], want_this, kk + ".this", where, name, "the object")
                done += 1
            if isff(f.ret):
                v = q.ret
                if v is None or v[0] != "o":
                    ctx.notes.append("%s: returned value not traced" % tag)
                else:
                    if "&" in f.ret and this is not None and opn.endswith("=") and v != this:
                        ctx.bad("residue", kk + ".self", where, "%s does not return the object it changed" % name)
                    self.value(itp, q, q.cells[v[1]], want_ret, kk + ".ret", where, name, "the result", q.ret if f.n == "pow" else None)
                    if f.n == "pow":
                        self.power(itp, q, q.cells[v[1]], resA, pv, start, kk, where, name)
                    done += 1
            elif f.n in ("mod_mul", "mod_inv", "mod_pow", "parse_longint"):
                self.value(itp, q, q.ret, want_ret, kk + ".ret", where, name, "the result")
                done += 1
            elif f.n in REL and len(f.params) + (this is not None) == 2 and q.ret is not None and resA is not None and not alias:
                x = start[this[1]][1] if this is not None else start[pv[0][1]][1]
                y = start[pv[-1][1]][1]
                self.relation(itp, q, REL[f.n], x, y, kk, where, name)
                done += 1
            elif f.n == "operator!" and this is not None and q.ret is not None:
                self.relation(itp, q, "==", start[this[1]][1], {}, kk, where, name)
                done += 1
        if done:
            ctx.ok("range", "%s (%d traces)" % (tag, len(live)))
            if want_this is not None or want_ret is not None or f.n in REL:
                ctx.ok("residue", tag)

    def value(self, itp, q, v, want, kk, where, name, what, _=None):
        ctx = self.ctx
        if v is None:
            ctx.bad("range", kk + ".unset", where, "%s leaves %s without a value on some path" % (name, what))
            return
        if v[0] != "i":
            ctx.notes.append("%s: %s: %s not traced" % (self.cfg, name, what))
            return
        unk = any(s in itp.C.unknown for s in v[1])
        if not itp.inrange(q, v[1]):
            if unk or "#guess" in q.cells:
                ctx.notes.append("%s: %s: range of %s not decided" % (self.cfg, name, what))
            else:
                ctx.bad("range", kk, where, "%s: %s can be outside [0, p) (value %s)" % (name, what, show(v[1])))
            return
        if want is None:
            return
        w = want(q)
        d = padd(itp.C.residue(v[1]), w, -1)
        r = vanishes(itp, q, d)
        if r is None or not r and "#guess" in q.cells:
            ctx.notes.append("%s: %s: value of %s not decided" % (self.cfg, name, what))
        elif not r:
            ctx.bad("residue", kk + ".value", where, "%s: %s is not congruent to the exact result modulo p on some path" % (name, what))

    def power(self, itp, q, v, resA, pv, start, kk, where, name):
        if v is None or v[0] != "i" or resA is None or not pv:
            return
        C = itp.C
        r = C.residue(v[1])
        x = pv[-1]
        e = start[x[1]][1] if x[0] == "o" else x[1] if x[0] == "i" else None
        if e is None:
            return
        inva = key(atom(("inv", key(resA))))
        ok = None
        if len(r) == 1:
            (m, c), = r.items()
            if c == 1 and len(m) == 1 and isinstance(m[0], tuple) and m[0][0] == "pow":
                b, x2 = m[0][1], dict(m[0][2])
                if b == key(resA):
                    d = add(x2, e, -1)
                    ok = q.zero(d) or q.zero(add(d, {P_: 1, 1: -1})) or q.zero(add(d, {P_: 1, 1: -1}, -1))
                elif b == inva:
                    d = add(x2, e)
                    ok = q.zero(d) or q.zero(add(d, {P_: 1, 1: -1}, -1))
            elif c == 1 and all(a in [y for y in resA for y in y] for a in m):
                ok = q.zero(add(e, {1: -len(m)} if m else {}))
        if ok is False:
            self.ctx.bad("residue", kk + ".power", where, "%s raises to another power than asked for" % name)
        elif ok is None and not any(a in C.unknown for m in r for a in m):
            self.ctx.notes.append("%s: %s: value of the power not decided" % (self.cfg, name))

    def relation(self, itp, q, op, x, y, kk, where, name):
        neg = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}
        v = q.ret
        if v[0] not in ("b", "i"):
            self.ctx.notes.append("%s: %s: result not traced" % (self.cfg, name))
            return
        for b, s in itp.split(v, q):
            # the opposite must be infeasible
            bad = [1 for t, z in itp.cmp(s, op, x, y) if t != b]
            if bad:
                self.ctx.bad("compare", kk, where, "%s does not compare the representatives: it can answer %s although %s does not hold" % (name, "true" if b else "false", "the relation" if b else "its negation"))
                return
        self.ctx.ok("compare", "%s: %s" % (self.cfg, name))


def show(e):
    out = []
    for s, v in sorted(e.items(), key=lambda z: str(z[0])):
        t = str(v) if s == 1 else ("" if v == 1 else "-" if v == -1 else "%d*" % v) + re.sub(r"#.*", "", s)
        out.append(t)
    return (" + ".join(out) or "0").replace("+ -", "- ")


def prime(n):
    if n < 2 or n % 2 == 0:
        return n == 2
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if a % n == 0:
            continue
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def field(ctx, P, cfg):
    """the field itself: prime and precomputed inverse belong together"""
    g = {x.q: x for x in P.globals.values()}
    gp, gi = g.get("firefly::FFInt::p"), g.get("firefly::FFInt::p_inv")
    if gp is not None and gp.init is not None and gp.init.cv is not None:
        p = int(gp.init.cv) % W64
        where = "%s:%d" % (os.path.relpath(gp.file, REPO), gp.line)
        ctx.check(prime(p) and 1 << 62 <= p < 1 << 63, "field", "initial", where, "the field a program starts in is not a prime field with a 63-bit prime")
        if gi is not None and gi.init is not None and gi.init.cv is not None and "flint" in cfg:
            n = p
            while n < 1 << 63:
                n <<= 1
            ctx.check(int(gi.init.cv) % W64 == ((1 << 128) - 1) // n - W64, "field", "initial_inverse", where, "the precomputed inverse a program starts with does not belong to the prime")
    for f in P.fns.values():
        if f.raw.get("body") is None or "/units/" in f.file:
            continue
        wp, wi = [], []
        for n in f.walk():
            if n.k == "Assign":
                t = strip(n.c[0])
                q = (t.d.get("q") or "") if t is not None else ""
                if q.endswith("FFInt::p"):
                    wp.append(n)
                elif q.endswith("FFInt::p_inv"):
                    wi.append(n)
        for n in wp:
            ctx.ok("field", "%s: %s sets the prime" % (cfg, f.n))
            if "flint" not in cfg:
                continue
            if not wi:
                ctx.bad("field", "%s.inverse" % f.n, n.loc(), "the prime changes but its precomputed inverse stays")
        for n in wi:
            if "flint" not in cfg:
                continue
            r = strip(n.c[1])
            while r is not None and r.k == "Cast":
                r = strip(r.c[0])
            if r is not None and r.k == "Call" and r.name == "n_preinvert_limb" and r.args():
                a = txt(strip(r.args()[0]))
                src = [txt(strip(x.c[1])) for x in wp]
                isp = (strip(r.args()[0]).d.get("q") or "").endswith("FFInt::p")
                if not isp and a not in src and wp:
                    ctx.bad("field", "%s.inverse_of" % f.n, n.loc(), "the precomputed inverse is that of another number than the prime")
                if isp and wp and all(x.l > n.l for x in wp):
                    ctx.bad("field", "%s.inverse_order" % f.n, n.loc(), "the inverse is computed from the previous prime")
            elif r is not None and r.cv is not None:
                ctx.bad("field", "%s.inverse_const" % f.n, n.loc(), "the precomputed inverse does not depend on the prime")


def foreign(ctx, P, cfg, fam):
    ids = {id(f) for f in fam}
    cnt = 0
    for f in P.fns.values():
        if f.raw.get("body") is None or "/units/" in f.file or id(f) in ids or f.recn == "FFInt":
            continue
        for n in f.walk():
            if not (n.k == "Assign" or n.k == "Un" and n.op in ("++", "--")):
                continue
            t = strip(n.c[0])
            if t is None or t.k != "Member" or t.name != "n" or not (t.d.get("q") or "").endswith("FFInt::n"):
                continue
            cnt += 1
            itp = I(P)
            st = itp.base()
            try:
                if n.k == "Un" or n.op != "=":
                    if n.k == "Assign" and n.op == "%=":
                        continue
                    ctx.bad("outside", f.n, n.loc(), "%s changes the representative of a field element in place without reducing it" % f.n)
                    continue
                for v, s in itp.ev(n.c[1], st):
                    for x, q in itp.norm(v, s):
                        if x[0] == "i" and not itp.inrange(q, x[1]):
                            u = [y for y in x[1] if y in itp.C.unknown and not y.startswith("elem")]
                            if u:
                                ctx.notes.append("%s: %s stores a representative that was not traced" % (cfg, f.n))
                            else:
                                ctx.bad("outside", f.n, n.loc(), "%s stores a representative that need not be in [0, p)" % f.n)
            except Unsup as e:
                ctx.notes.append("%s: store in %s not decided: %s" % (cfg, f.n, e))
    ctx.ok("outside", "%s: %d stores to representatives outside the class" % (cfg, cnt))


def run(ctx):
    ctx.rule("range", "on every path of every field operation the stored or returned representative lies in [0, p)")
    ctx.rule("residue", "the representative is congruent modulo p to the exact result of the operation (no lost wrap-around, right operand order, same object as both operands)")
    ctx.rule("compare", "comparisons and the zero test decide exactly the relation of the representatives")
    ctx.rule("field", "prime and precomputed inverse change together")
    ctx.rule("outside", "no code outside the class stores an unreduced representative")
    ctx.assume.append(NOTE)
    progs = load(("default", "flint"))
    for cfg, P in progs.items():
        fam = family(P)
        C = Check(ctx, P, cfg)
        for f in sorted(fam, key=lambda z: (z.file, z.line)):
            if f.n in ("operator<<", "set_new_prime", "to_neg_int", "firefly_exists"):
                continue
            C.run(f)
            k = sum(isff(p.t) for p in f.params) + (f.kind == "method")
            if k >= 2:
                C.run(f, True)
        field(ctx, P, cfg)
        foreign(ctx, P, cfg, fam)
    ctx.need("range", 60, "operations of both backends")
    ctx.need("residue", 40, "values of operations")
    ctx.need("compare", 10, "comparisons")
