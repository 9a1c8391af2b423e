"""Abstract interpretation of integer code: intervals with known bits, paths split at
branches the intervals do not decide and at the leading bit of a quotient.

No values are drawn or executed: every abstract value stands for a set of machine
integers, operations are transferred over these sets and constants only arise where
the set has one element."""
from .core import *
from .core import strip


class Undecided(Exception):
    pass


def width(t):
    t = t.replace("const", "").replace("&", "").strip()
    w = {"bool": (1, False), "char": (8, True), "unsigned char": (8, False), "short": (16, True), "unsigned short": (16, False),
         "int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False),
         "long long": (64, True), "unsigned long long": (64, False), "uint32_t": (32, False), "std::uint32_t": (32, False),
         "uint64_t": (64, False), "size_t": (64, False), "std::size_t": (64, False), "uint8_t": (8, False), "uint16_t": (16, False),
         "int32_t": (32, True), "int64_t": (64, True)}
    return w.get(t, (64, False))


class V:
    """an integer in [lo, hi] whose bits agree with (zeros, ones)"""
    __slots__ = ("lo", "hi", "z", "o", "w", "s")

    def __init__(self, lo, hi, w=32, s=False, z=0, o=0):
        full = (1 << w) - 1
        mn, mx = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, full)
        lo, hi = max(lo, mn), min(hi, mx)
        if lo >= 0:
            # the bits above the highest bit in which lo and hi differ are known
            d = (lo ^ hi).bit_length() if hi >= lo else 0
            m = full & ~((1 << d) - 1)
            z |= m & ~lo
            o |= m & lo
            lo = max(lo, o)
            hi = min(hi, full & ~z)
            if z | o == full:
                lo = hi = o
        self.lo, self.hi, self.w, self.s, self.z, self.o = lo, hi, w, s, z & full, o & full

    @property
    def const(self):
        return self.lo if self.lo == self.hi else None

    @property
    def empty(self):
        return self.lo > self.hi or bool(self.z & self.o)

    def key(self):
        return (self.lo, self.hi, self.z, self.o, self.w, self.s)

    def __repr__(self):
        return str(self.lo) if self.const is not None else "[%d,%d]" % (self.lo, self.hi)


def K(v, w=32, s=False):
    return V(v, v, w, s)


def top(w=32, s=False):
    return V(-(1 << 70), 1 << 70, w, s)


def cast(v, w, s):
    if v.w == w and v.s == s:
        return v
    if v.const is not None:
        x = v.const & ((1 << w) - 1)
        if s and x >> (w - 1):
            x -= 1 << w
        return K(x, w, s)
    mn, mx = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    if mn <= v.lo and v.hi <= mx:
        return V(v.lo, v.hi, w, s, (v.z | ((1 << w) - 1) & ~((1 << v.w) - 1)) & ((1 << w) - 1) if v.lo >= 0 else 0, v.o & ((1 << w) - 1) if v.lo >= 0 else 0)
    return top(w, s)


def arith(op, a, b, w, s):
    full = (1 << w) - 1
    if op in ("<<", ">>"):
        k = b.const
        if k is None or k < 0 or k >= w:
            return top(w, s)
        if a.const is not None:
            return cast(K(a.const << k if op == "<<" else a.const >> k, 128, True), w, s)
        if a.lo < 0:
            return top(w, s)
        if op == ">>":
            return V(a.lo >> k, a.hi >> k, w, s, (a.z >> k) | (full & ~(full >> k)), a.o >> k)
        if a.hi << k <= (full >> 1 if s else full):
            return V(a.lo << k, a.hi << k, w, s, ((a.z << k) | ((1 << k) - 1)) & full, (a.o << k) & full)
        return V(0, full, w, s, ((a.z << k) | ((1 << k) - 1)) & full, (a.o << k) & full) if not s else top(w, s)
    if op in ("&", "|", "^"):
        if a.const is not None and b.const is not None:
            r = a.const & b.const if op == "&" else a.const | b.const if op == "|" else a.const ^ b.const
            return cast(K(r, 128, True), w, s)
        if a.lo < 0 or b.lo < 0:
            return top(w, s)
        if op == "&":
            return V(0, min(a.hi, b.hi), w, s, (a.z | b.z) & full, a.o & b.o)
        if op == "|":
            return V(max(a.lo, b.lo), (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1, w, s, a.z & b.z, (a.o | b.o) & full)
        return V(0, (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1, w, s, (a.z & b.z) | (a.o & b.o), (a.z & b.o) | (a.o & b.z))
    if op == "+":
        lo, hi = a.lo + b.lo, a.hi + b.hi
    elif op == "-":
        lo, hi = a.lo - b.hi, a.hi - b.lo
    elif op == "*":
        x = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
        lo, hi = min(x), max(x)
    elif op == "/":
        if b.lo <= 0 or a.lo < 0:
            return top(w, s)
        lo, hi = a.lo // b.hi, a.hi // b.lo
    elif op == "%":
        if b.lo <= 0 or a.lo < 0:
            return top(w, s)
        if a.const is not None and b.const is not None:
            return K(a.const % b.const, w, s)
        lo, hi = 0, min(a.hi, b.hi - 1)
    else:
        return top(w, s)
    if lo == hi:
        return cast(K(lo, 128, True), w, s)
    mn, mx = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, full)
    if mn <= lo and hi <= mx:
        return V(lo, hi, w, s)
    return top(w, s)


def compare(op, a, b):
    """True/False/None"""
    if op == "<":
        return True if a.hi < b.lo else False if a.lo >= b.hi else None
    if op == ">":
        return compare("<", b, a)
    if op == "<=":
        r = compare("<", b, a)
        return None if r is None else not r
    if op == ">=":
        r = compare("<", a, b)
        return None if r is None else not r
    if op in ("==", "!="):
        r = None
        if a.const is not None and a.const == b.const:
            r = True
        elif a.hi < b.lo or b.hi < a.lo or (a.lo >= 0 and b.lo >= 0 and (a.z & b.o or a.o & b.z)):
            r = False
        return r if op == "==" or r is None else not r
    return None


NEG = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}
SWAP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}


def narrow(v, op, b):
    """v restricted to values with v op b"""
    lo, hi = v.lo, v.hi
    if op == "<":
        hi = min(hi, b.hi - 1)
    elif op == "<=":
        hi = min(hi, b.hi)
    elif op == ">":
        lo = max(lo, b.lo + 1)
    elif op == ">=":
        lo = max(lo, b.lo)
    elif op == "==":
        lo, hi = max(lo, b.lo), min(hi, b.hi)
    elif op == "!=" and b.const is not None:
        if lo == b.const:
            lo += 1
        if hi == b.const:
            hi -= 1
    return V(lo, hi, v.w, v.s, v.z, v.o)


class Env:
    """variables -> V; `orig` keeps what is known of a parameter's value on entry"""
    __slots__ = ("m", "orig", "asg")

    def __init__(self, m=None, orig=None, asg=frozenset()):
        self.m = dict(m or {})
        self.orig = dict(orig or {})
        self.asg = asg

    def copy(self):
        return Env(self.m, self.orig, self.asg)

    def key(self):
        return (tuple(sorted((k, v.key()) for k, v in self.m.items())), tuple(sorted((k, v.key()) for k, v in self.orig.items())), self.asg)


class Bits:
    maxpaths = 60000
    maxdepth = 6

    def __init__(self, P):
        self.P = P
        self.steps = 0
        self.zero_div = []

    # ------------------------------------------------------------ expressions
    def refine(self, n, op, b, e):
        """environments in which  n op b  (b a V) holds"""
        n = strip(n)
        while n is not None and n.k == "Cast" and n.args():
            n = strip(n.args()[0])
        if n is None:
            return e
        if n.k == "Ref" and n.d["d"] in e.m:
            d = n.d["d"]
            v = e.m[d]
            r = narrow(v, op, cast(b, v.w, v.s) if b.w != v.w else b)
            if r.empty:
                return None
            e = e.copy()
            e.m[d] = r
            if d in e.orig and d not in e.asg:
                e.orig[d] = r
        return e

    def ev(self, n, e, depth=0):
        """[(V, Env)]"""
        self.steps += 1
        if self.steps > 400000:
            raise Undecided("too many steps")
        n = strip(n)
        if n is None:
            raise Undecided("no expression")
        w, s = width(n.t)
        if n.cv is not None:
            return [(cast(K(n.cv, 128, True), w, s), e)]
        k = n.k
        if k in ("Int", "Bool", "Char"):
            return [(K(int(n.d["v"]), w, s), e)]
        if k == "Ref":
            v = e.m.get(n.d["d"])
            return [(cast(v, w, s) if v is not None else self.unknown(n, e, w, s), e)]
        if k in ("Cast", "Paren", "InitList", "Construct") and len(n.args()) == 1:
            return [(cast(v, w, s), e2) for v, e2 in self.ev(n.args()[0], e, depth)]
        if k == "Un":
            if n.op == "!":
                return [(K(0 if t else 1, 1), e2) for t, e2 in self.truth(n.c[0], e, depth)]
            if n.op in ("++", "--"):
                out = []
                for v, e2 in self.ev(n.c[0], e, depth):
                    nv = arith("+" if n.op == "++" else "-", v, K(1, v.w, v.s), v.w, v.s)
                    e3 = self.store(n.c[0], nv, e2)
                    out.append((v if n.d.get("post") else nv, e3))
                return out
            if n.op == "-":
                return [(arith("-", K(0, w, s), cast(v, w, s), w, s), e2) for v, e2 in self.ev(n.c[0], e, depth)]
            if n.op == "+":
                return self.ev(n.c[0], e, depth)
            if n.op == "~":
                return [(cast(K(~v.const, 128, True), w, s) if v.const is not None else V((1 << w) - 1 - v.hi, (1 << w) - 1 - v.lo, w, s, v.o, v.z) if v.lo >= 0 and not s else top(w, s), e2)
                        for v, e2 in self.ev(n.c[0], e, depth)]
            return [(self.unknown(n, e, w, s), e)]
        if k == "Bin":
            if n.op in ("&&", "||") or n.op in NEG:
                return [(K(1 if t else 0, 1), e2) for t, e2 in self.truth(n, e, depth)]
            if n.op == ",":
                return [r for _, e2 in self.ev(n.c[0], e, depth) for r in self.ev(n.c[1], e2, depth)]
            out = []
            for a, e1 in self.ev(n.c[0], e, depth):
                for b, e2 in self.ev(n.c[1], e1, depth):
                    out += self.bin(n, n.op, cast(a, w, s) if n.op not in ("<<", ">>") else a, b if n.op in ("<<", ">>") else cast(b, w, s), w, s, e2)
            return out
        if k == "Assign":
            out = []
            tw, ts = width(n.c[0].t)
            for b, e1 in self.ev(n.c[1], e, depth):
                if n.op == "=":
                    v = cast(b, tw, ts)
                    out.append((v, self.store(n.c[0], v, e1)))
                else:
                    for a, e2 in self.ev(n.c[0], e1, depth):
                        for v, e3 in self.bin(n, n.op[:-1], a, cast(b, tw, ts) if n.op not in ("<<=", ">>=") else b, tw, ts, e2):
                            out.append((v, self.store(n.c[0], v, e3)))
            return out
        if k == "Cond":
            out = []
            for t, e1 in self.truth(n.c[0], e, depth):
                out += self.ev(n.c[1] if t else n.c[2], e1, depth)
            return [(cast(v, w, s), e2) for v, e2 in out]
        if k == "Call":
            return self.call(n, e, depth, w, s)
        return [(self.unknown(n, e, w, s), e)]

    def unknown(self, n, e, w, s):
        return top(w, s)

    def store(self, t, v, e):
        t = strip(t)
        if t is not None and t.k == "Ref":
            e = e.copy()
            e.m[t.d["d"]] = v
            e.asg = e.asg | {t.d["d"]}
            return e
        raise Undecided("store to %s" % txt(t))

    def bin(self, n, op, a, b, w, s, e):
        if op in ("/", "%") and b.lo <= 0:
            if b.hi <= 0:
                self.zero_div.append((n, e))
                return []
            self.zero_div.append((n, e))
            b = V(1, b.hi, b.w, b.s)
        r = arith(op, a, b, w, s)
        if op != "/" or r.const is not None or r.lo < 0:
            return [(r, e)]
        # split at the leading bit of the quotient
        out = []
        if r.lo == 0:
            e2 = self.refine(n.c[0], "<", b, e)
            if e2 is not None:
                out.append((K(0, w, s), e2))
        for h in range(max(r.lo, 1).bit_length() - 1, r.hi.bit_length()):
            x = V(max(r.lo, 1 << h), min(r.hi, (2 << h) - 1), w, s)
            if x.empty:
                continue
            e2 = self.refine(n.c[0], ">=", K(x.lo * b.lo, 128, True), e)
            if e2 is not None:
                out.append((x, e2))
        return out

    def call(self, n, e, depth, w, s):
        a = n.args()
        fq = n.d.get("fq", "")
        if fq.startswith("std::min") or fq.startswith("std::max"):
            if len(a) >= 2:
                out = []
                for x, e1 in self.ev(a[0], e, depth):
                    for y, e2 in self.ev(a[1], e1, depth):
                        x2, y2 = cast(x, w, s), cast(y, w, s)
                        f = min if fq.startswith("std::min") else max
                        lt = compare("<=" if f is min else ">=", x2, y2)
                        if lt is True:
                            out.append((x2, e2))
                        elif lt is False:
                            out.append((y2, e2))
                        else:
                            e3 = self.refine(a[0], "<=" if f is min else ">=", y2, e2)
                            if e3 is not None:
                                v = narrow(x2, "<=" if f is min else ">=", y2)
                                if not v.empty:
                                    out.append((v, e3))
                            e3 = self.refine(a[1], "<=" if f is min else ">=", x2, e2)
                            if e3 is not None:
                                v = narrow(y2, "<=" if f is min else ">=", x2)
                                if not v.empty:
                                    out.append((v, e3))
                return out
        g = self.P.callee(n)
        if g is None or g.raw.get("body") is None or depth >= self.maxdepth:
            return [(self.unknown(n, e, w, s), e)]
        envs = [({}, e)]
        for p, x in zip(g.params, a):
            nxt = []
            pw, ps = width(p.t)
            for m, e1 in envs:
                for v, e2 in self.ev(x, e1, depth):
                    m2 = dict(m)
                    m2[p.d] = cast(v, pw, ps)
                    nxt.append((m2, e2))
            envs = nxt
        out = []
        for m, e1 in envs:
            for v, e2 in self.run(g, m, depth + 1):
                out.append((v if v is not None else top(w, s), e1))
        return out

    def truth(self, n, e, depth=0):
        """[(bool, Env)]"""
        n = strip(n)
        if n.cv is not None:
            return [(bool(n.cv), e)]
        if n.k == "Un" and n.op == "!":
            return [(not t, e2) for t, e2 in self.truth(n.c[0], e, depth)]
        if n.k == "Bin" and n.op in ("&&", "||"):
            out = []
            for t, e1 in self.truth(n.c[0], e, depth):
                if t == (n.op == "||"):
                    out.append((t, e1))
                else:
                    out += self.truth(n.c[1], e1, depth)
            return out
        if n.k == "Bin" and n.op in NEG:
            out = []
            for a, e1 in self.ev(n.c[0], e, depth):
                for b, e2 in self.ev(n.c[1], e1, depth):
                    if a.w != b.w or a.s != b.s:
                        # the usual conversions make both operands the wider / unsigned one
                        w = max(a.w, b.w, 32)
                        s = a.s and b.s if a.w == b.w else (a.s if a.w > b.w else b.s)
                        a2, b2 = cast(a, w, s), cast(b, w, s)
                    else:
                        a2, b2 = a, b
                    r = compare(n.op, a2, b2)
                    for val in (True, False):
                        if r is not None and r != val:
                            continue
                        op = n.op if val else NEG[n.op]
                        e3 = self.refine(n.c[0], op, b2, e2)
                        if e3 is None:
                            continue
                        e4 = self.refine(n.c[1], SWAP[op], a2, e3)
                        if e4 is not None:
                            out.append((val, e4))
            return out
        out = []
        for v, e1 in self.ev(n, e, depth):
            if v.const is not None:
                out.append((v.const != 0, e1))
            elif v.lo > 0 or v.hi < 0 or v.o:
                out.append((True, e1))
            else:
                e2 = self.refine(n, "!=", K(0, v.w, v.s), e1)
                if e2 is not None:
                    out.append((True, e2))
                e2 = self.refine(n, "==", K(0, v.w, v.s), e1)
                if e2 is not None:
                    out.append((False, e2))
        return out

    # ------------------------------------------------------------ statements
    def run(self, g, m, depth=0, ghost=True):
        """[(returned V or None, Env)] for parameters m: decl -> V"""
        e = Env(m, m if ghost else {})
        out = []
        for o, v, e2 in self.exec(g.body, e, depth):
            if o == "return":
                out.append((v, e2))
            elif o in ("next",):
                out.append((None, e2))
        return self.dedup(out)

    def dedup(self, rs):
        seen, out = set(), []
        for v, e in rs:
            k = (v.key() if v is not None else None, e.key())
            if k not in seen:
                seen.add(k)
                out.append((v, e))
        if len(out) > self.maxpaths:
            raise Undecided("too many paths")
        return out

    def dedup3(self, rs):
        seen, out = set(), []
        for o, v, e in rs:
            k = (o, v.key() if v is not None else None, e.key())
            if k not in seen:
                seen.add(k)
                out.append((o, v, e))
        if len(out) > self.maxpaths:
            raise Undecided("too many paths")
        return out

    def seq(self, stmts, e, depth):
        cur = [("next", None, e)]
        for st in stmts:
            nxt = []
            for o, v, e1 in cur:
                if o != "next":
                    nxt.append((o, v, e1))
                else:
                    nxt += self.exec(st, e1, depth)
            cur = self.dedup3(nxt)
        return cur

    def exec(self, n, e, depth):
        if n is None or n.k in ("Null", "Empty"):
            return [("next", None, e)]
        k = n.k
        if k == "Compound":
            return self.seq([x for x in n.c if x is not None], e, depth)
        if is_exit(strip(n)):
            return [("exit", None, e)]
        if k == "Decl":
            cur = [e]
            for v in n.vars:
                w, s = width(v.t)
                nxt = []
                for e1 in cur:
                    if v.init is None:
                        e2 = e1.copy()
                        e2.m[v.d] = top(w, s)
                        nxt.append(e2)
                    else:
                        for x, e2 in self.ev(v.init, e1, depth):
                            e3 = e2.copy()
                            e3.m[v.d] = cast(x, w, s)
                            nxt.append(e3)
                cur = nxt
            return [("next", None, x) for x in cur]
        if k == "If":
            out = []
            for t, e1 in self.truth(n.c[0], e, depth):
                b = n.c[1] if t else (n.c[2] if len(n.c) > 2 else None)
                out += self.exec(b, e1, depth)
            return self.dedup3(out)
        if k == "Return":
            if not n.args():
                return [("return", None, e)]
            return [("return", v, e1) for v, e1 in self.ev(n.args()[0], e, depth)]
        if k in ("For", "While", "Do"):
            return self.loop(n, e, depth)
        if k == "Break":
            return [("break", None, e)]
        if k == "Continue":
            return [("continue", None, e)]
        if k == "Switch":
            return self.switch(n, e, depth)
        if k in ("Case", "Default"):
            return self.exec(n.c[-1], e, depth)
        if k in ("Try", "ForRange", "Goto", "Label"):
            raise Undecided(k)
        return [("next", None, e1) for _, e1 in self.ev(n, e, depth)]

    def loop(self, n, e, depth):
        init, cond, inc, body = (n.c[0], n.c[1], n.c[2], n.c[3]) if n.k == "For" else (None, n.c[0], None, n.c[1]) if n.k == "While" else (None, n.c[1], None, n.c[0])
        out = []
        cur = [x[2] for x in self.exec(init, e, depth)] if init is not None else [e]
        first = n.k == "Do"
        for it in range(400):
            nxt = []
            for e1 in cur:
                ts = [(True, e1)] if first or cond is None else self.truth(cond, e1, depth)
                for t, e2 in ts:
                    if not t:
                        out.append(("next", None, e2))
                        continue
                    for o, v, e3 in self.exec(body, e2, depth):
                        if o in ("next", "continue"):
                            if inc is not None:
                                nxt += [x for _, x in self.ev(inc, e3, depth)]
                            else:
                                nxt.append(e3)
                        elif o == "break":
                            out.append(("next", None, e3))
                        else:
                            out.append((o, v, e3))
            first = False
            seen, cur = set(), []
            for x in nxt:
                if x.key() not in seen:
                    seen.add(x.key())
                    cur.append(x)
            if not cur:
                return self.dedup3(out)
            if len(cur) > self.maxpaths:
                raise Undecided("too many paths")
        raise Undecided("loop not bounded")

    def switch(self, n, e, depth):
        body = n.c[-1]
        st = [x for x in body.c if x is not None] if body.k == "Compound" else [body]
        labels = []
        for i, x in enumerate(st):
            while x is not None and x.k in ("Case", "Default"):
                labels.append((i, x.c[0].cv if x.k == "Case" else None))
                x = x.c[-1]
        out = []
        for v, e1 in self.ev(n.c[0], e, depth):
            if v.const is None:
                raise Undecided("switch over a range")
            i = next((j for j, c in labels if c == v.const), None)
            if i is None:
                i = next((j for j, c in labels if c is None), None)
            if i is None:
                out.append(("next", None, e1))
                continue
            for o, r, e2 in self.seq(st[i:], e1, depth):
                out.append(("next", r, e2) if o == "break" else (o, r, e2))
        return self.dedup3(out)
