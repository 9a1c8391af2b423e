"""C02: packed arithmetic equals scalar arithmetic lane by lane."""
TECHNIQUE = "abstract interpretation of every packed operation on symbolic lanes (terms over scalar operations), compared per lane with the scalar operation"
NOTE = ("Each operation is evaluated for packs of 2 and 4 (thorough: every instantiated size) with one symbol per lane; scalar operations are uninterpreted field operations, "
        "so any lane mix-up, operand swap, missing lane or shortcut through another lane changes the term. Comparisons are decided on constant patterns. "
        "Values the interpreter cannot express are reported as notes. Scalar operations themselves are C01.")

from ..core import *
from ..core import strip
from ..absint import *
from ..absint import c as K

SIZES = (2, 4, 8, 16, 32, 64, 128)


class Lane(AI):
    def isfield(self, t):
        t = unconst(t).strip(" &")
        return t == "firefly::FFInt"

    def initial(self, root, t, n):
        return ("sym", str(root[-1]))

    def zero(self, t):
        return ("fld", K(0)) if "FFInt" in t else TOP

    # iterators into packs of known size: ("it", lvalue, index)
    def lv(self, fr, n, st):
        m = n
        while m is not None and m.k == "Cast":
            m = m.c[0]
        if m is not None and (m.k == "Un" and m.op == "*" or m.k == "Call" and m.op in ("*", "->") and len(m.args()) == 1):
            v = self.ev(fr, m.c[0] if m.k == "Un" else m.args()[0], st)
            if v[0] == "it":
                return (v[1][0], v[1][1] + (("i", v[2]),))
        if m is not None and (m.k == "Sub" or m.k == "Call" and m.op == "[]"):
            b = m.c[0] if m.k == "Sub" else m.args()[0]
            v = self.ev(fr, b, st)
            if v[0] == "it":
                i = self.ev(fr, m.c[1] if m.k == "Sub" else m.args()[1], st)
                return (v[1][0], v[1][1] + (("i", self.binop("+", v[2], i)),))
        if m is not None and m.k == "Call" and m.op in ("++", "--") and m.args():
            v = self.ev(fr, m.args()[0], st)
            if v[0] == "it":
                self.ev(fr, m, st)
                return Lane.lv(self, fr, m.args()[0], st)
        return AI.lv(self, fr, n, st)

    def binop(self, op, a, b, t=""):
        if a[0] == "it" and b[0] == "it" and a[1] == b[1]:
            if op == "-":
                return self.binop("-", a[2], b[2])
            return self.binop(op, a[2], b[2])
        if a[0] == "it" and op in ("+", "-") and b[0] == "c":
            return ("it", a[1], self.binop(op, a[2], b))
        if a[0] == "fld" and b[0] == "fld" and a[1][0] == "c" and b[1][0] == "c" and op in ("<", ">", "<=", ">=", "==", "!="):
            return AI.binop(self, op, a[1], b[1])
        if a[0] == "fld" and b[0] == "c" or b[0] == "fld" and a[0] == "c":
            return self.binop(op, a if a[0] == "fld" else ("fld", a), b if b[0] == "fld" else ("fld", b), t)
        if a[0] == "vec" and b[0] == "vec" and op in ("==", "!=") and len(a[2]) == len(b[2]):
            rs = [self.truth(self.binop("==", x, y)) for x, y in zip(a[2], b[2])]
            if any(r is False for r in rs):
                return K(int(op == "!="))
            if all(r is True for r in rs):
                return K(int(op == "=="))
            return TOP
        return AI.binop(self, op, a, b, t)

    def call_model(self, fr, n, st):
        if n.k == "Construct":
            if n.t.startswith("std::array<"):
                a = n.args()
                if a:
                    return self.ev(fr, a[0], st)
                m = n.t[n.t.rindex(",") + 1:].strip(" >&")
                if m.isdigit():
                    return ("vec", None, (self.zero(n.t),) * int(m))
            return NotImplemented
        a = n.args()
        op, nm = n.op, n.name
        if op == "!" and len(a) == 1 and self.isfield(a[0].t):
            v = self.ev(fr, a[0], st)
            if v[0] == "fld" and v[1][0] == "c":
                return K(int(v[1][1] == 0))
            return TOP if v == TOP else ("cmp", "==", ("fld", K(0)), v)
        if op in ("++", "--") and a:
            v = self.ev(fr, a[0], st)
            if v[0] == "it":
                l = AI.lv(self, fr, a[0], st)
                w = ("it", v[1], self.binop("+" if op == "++" else "-", v[2], K(1)))
                self.write(st, l, w)
                return v if len(a) > 1 else w
        if op in ("+=", "-=") and len(a) == 2 and not self.isfield(a[0].t):
            v = self.ev(fr, a[0], st)
            if v[0] == "it":
                w = self.binop(op[0], v, self.ev(fr, a[1], st))
                self.write(st, AI.lv(self, fr, a[0], st), w)
                return w
        if op in ("+", "-") and len(a) == 2 and self.P.callee(n) is None:
            v = self.ev(fr, a[0], st)
            if v[0] == "it":
                return self.binop(op, v, self.ev(fr, a[1], st))
        if n.obj is not None and self.P.callee(n) is None and nm in ("begin", "cbegin", "end", "cend", "fill", "size", "data", "swap", "assign"):
            l = self.lv(fr, n.obj, st)
            if l is None:
                l = self.temp(st, self.ev(fr, n.obj, st))
            v = self.read(st, l, n.obj)
            if v[0] == "vec" and v[1] is None:
                if nm in ("begin", "cbegin", "data"):
                    return ("it", l, K(0))
                if nm in ("end", "cend"):
                    return ("it", l, K(len(v[2])))
                if nm == "size":
                    return K(len(v[2]))
                if nm == "fill":
                    x = self.ev(fr, a[0], st)
                    if x[0] == "c":
                        x = ("fld", x)
                    self.write(st, l, ("vec", None, (x,) * len(v[2])))
                    return TOP
                if nm == "swap":
                    m = self.lv(fr, a[0], st)
                    w = self.read(st, m, a[0])
                    self.write(st, l, w)
                    self.write(st, m, v)
                    return TOP
        fq = n.d.get("fq", "")
        if fq.startswith("std::") and nm == "transform" and len(a) in (4, 5):
            its = [self.ev(fr, x, st) for x in a[:-1]]
            f = self.ev(fr, a[-1], st)
            g = None
            if f[0] == "lam":
                hs = self.P.lams.get(f[1])
                g = hs[0] if hs else None
            x = strip(a[-1])
            prim = None
            for k_, o in (("plus", "+"), ("minus", "-"), ("multiplies", "*"), ("divides", "/"), ("negate", "neg")):
                if "std::" + k_ in x.t:
                    prim = o
            if all(i[0] == "it" and i[2][0] == "c" for i in its) and (g is not None or prim):
                cnt = its[1][2][1] - its[0][2][1]
                for i in range(cnt):
                    ops = [self.read(st, (j[1][0], j[1][1] + (("i", self.binop("+", j[2], K(i))),))) for j in ([its[0]] if len(a) == 4 else [its[0], its[2]])]
                    if prim == "neg":
                        r = mneg(ops[0])
                    elif prim:
                        r = self.fieldop(prim, ops[0], ops[1])
                    else:
                        sub = self.frame(g, fr["this"], {}, fr)
                        for pv, o in zip(g.params, ops):
                            if pv.t.endswith("&"):
                                sub["refs"][pv.d] = self.temp(st, o)
                            else:
                                st.m[("L", pv.d, pv.n)] = o
                        out = self.exec(sub, g.body, st.copy())
                        rs = out.get("return", [])
                        if len(rs) != 1:
                            return TOP
                        st.m = rs[0][0].m
                        r = rs[0][1]
                    o = its[-1]
                    self.write(st, (o[1][0], o[1][1] + (("i", self.binop("+", o[2], K(i))),)), r)
                return TOP
        if fq.startswith("std::") and nm in ("begin", "end", "cbegin", "cend") and len(a) == 1:
            l = self.lv(fr, a[0], st)
            if l is not None:
                v = self.read(st, l, a[0])
                if v[0] == "vec" and v[1] is None:
                    return ("it", l, K(0 if "begin" in nm else len(v[2])))
        if fq.startswith("std::") and nm in ("fill", "copy", "equal", "swap"):
            vs = [self.ev(fr, x, st) for x in a]
            if nm == "fill" and all(x[0] == "it" for x in vs[:2]):
                for i in range(vs[0][2][1], vs[1][2][1]):
                    self.write(st, (vs[0][1][0], vs[0][1][1] + (("i", K(i)),)), ("fld", vs[2]) if vs[2][0] == "c" else vs[2])
                return TOP
            if nm == "copy" and all(x[0] == "it" for x in vs[:3]):
                for i in range(vs[1][2][1] - vs[0][2][1]):
                    self.write(st, (vs[2][1][0], vs[2][1][1] + (("i", self.binop("+", vs[2][2], K(i))),)),
                               self.read(st, (vs[0][1][0], vs[0][1][1] + (("i", self.binop("+", vs[0][2], K(i))),))))
                return TOP
            if nm == "equal" and all(x[0] == "it" for x in vs[:3]):
                res = TRUE
                for i in range(vs[1][2][1] - vs[0][2][1]):
                    t = self.truth(self.binop("==", self.read(st, (vs[0][1][0], vs[0][1][1] + (("i", self.binop("+", vs[0][2], K(i))),))),
                                              self.read(st, (vs[2][1][0], vs[2][1][1] + (("i", self.binop("+", vs[2][2], K(i))),)))))
                    if t is None:
                        return TOP
                    if not t:
                        return FALSE
                return res
        return NotImplemented


def lanes(name, n):
    return tuple(("val", "", "%s%d" % (name, i)) for i in range(n))


def pack(name, n, ls=None):
    return ("rec", ("new", name), (("vec", ("vec", None, ls if ls is not None else lanes(name, n))),))


def ai_run(ai, f, args, this=None):
    """args: list of values. -> (outcomes, params lvalues). outcomes: [(state, value, lvalue)]"""
    st = State()
    fr = ai.frame(f)
    if this is not None:
        st.m[("T", "self")] = this
        fr["this"] = (("T", "self"), ())
    for i, (pv, a) in enumerate(zip(f.params, args)):
        if pv.t.endswith("&"):
            st.m[("A", i)] = a
            fr["refs"][pv.d] = (("A", i), ())
        else:
            st.m[("L", pv.d, pv.n)] = a
    if f.kind == "ctor":
        s = ai.run_ctor(fr, f, st)
        return [(s, TOP, None)] if s is not None else []
    o = ai.exec(fr, f.body, st)
    out = list(o.get("return", []))
    if o.get("next") is not None:
        out.append((o["next"], TOP, None))
    return out


def vec_of(ai, v):
    if v[0] == "vec":
        return v[2]
    if v[0] == "rec":
        for n, x in v[2]:
            if n == "vec" or x[0] == "vec":
                return x[2] if x[0] == "vec" else None
    return None


def has_top(t):
    if t == TOP:
        return True
    return isinstance(t, tuple) and any(has_top(x) for x in t if isinstance(x, tuple))


OPS = {"operator+": "+", "operator-": "-", "operator*": "*", "operator/": "/"}


def kind(t, n):
    t = unconst(t).strip(" &")
    if t == "firefly::FFIntVec<%d>" % n:
        return "V"
    if t == "firefly::FFInt":
        return "S"
    return t


def run(ctx):
    ctx.rule("lane", "lane i of the result of a packed operation is the scalar operation on lane i of the operands, in the same order")
    ctx.rule("self", "a compound operation changes and returns the object it is applied to, and leaves its operand alone")
    ctx.rule("compare", "comparisons of packs agree with the scalar comparison; equality looks at every lane")
    ctx.rule("access", "construction and element access reach exactly the lane they name")
    ctx.rule("sizes", "every bunch size has an instantiation of every packed operation")
    P = load(("default",), {"FFIntVec.cpp", "unit_math.cpp"})["default"]
    sizes = SIZES if ctx.thorough else (2, 4)
    pres = {}
    total = 0
    for N in SIZES:
        T = "firefly::FFIntVec<%d>" % N
        fns = [f for f in P.fns.values() if f.raw.get("body") is not None and
               (f.q.startswith(T + "::") or (not f.rec and f.q.split("<")[0] in tuple("firefly::" + x for x in ("operator+", "operator-", "operator*", "operator/", "operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=", "pow")) or not f.rec and f.q.startswith("firefly::operator"))
                and any(kind(p.t, N) == "V" for p in f.params))]
        sigs = set()
        for f in fns:
            if f.tu.endswith("FFIntVec.cpp") or "FFIntVec.cpp" in str(f.tu):
                sigs.add((f.q.split("::")[-1] if not f.q.startswith(T + "::") else "m:" + f.n.split("<")[0], tuple(kind(p.t, N) for p in f.params)))
        pres[N] = sigs
        if N not in sizes:
            continue
        for f in fns:
            total += one(ctx, P, f, N)
    ctx.need("lane", total, "packed operations")
    want = set()
    for o in ("operator+", "operator-", "operator*", "operator/"):
        want |= {(o, ("V", "V")), (o, ("V", "S")), (o, ("S", "V"))}
    want |= {("operator-", ("V",)), ("operator+", ("V",)), ("operator==", ("V", "V")), ("operator!=", ("V", "V")), ("pow", ("V", "V")),
             ("operator<", ("V", "V")), ("operator>", ("V", "V")), ("operator<=", ("V", "V")), ("operator>=", ("V", "V"))}
    for o in ("operator+=", "operator-=", "operator*=", "operator/="):
        want.add(("m:" + o, ("V",)))
    want |= {("m:pow", ("V",)), ("m:pow", ("S",))}
    allsig = set.intersection(*pres.values()) | want
    # what any size provides
    for N in SIZES:
        for s in sorted(want):
            name = s[0]
            ctx.check(s in pres[N] or (name, s[1]) in pres[N], "sizes", "%s(%s)<%d>" % (name, ",".join(s[1]), N), "source/FFIntVec.cpp",
                      "no instantiation of %s(%s) for packs of %d" % (name, ", ".join(s[1]), N))


def one(ctx, P, f, N):
    ai = Lane(P)
    name = f.n.split("<")[0] if f.rec else f.q.split("::")[-1].split("<")[0]
    ks = [kind(p.t, N) for p in f.params]
    key = "%s(%s)<%d>" % (name, ",".join(ks), N)
    where = f.loc()

    def undecided(why):
        ctx.notes.append("%s: not decided (%s)" % (key, why))
        return 0

    def judge(rid, got, exp, what):
        if got is None:
            ctx.notes.append("%s: not decided" % key)
            return
        if len(got) != len(exp):
            ctx.bad(rid, key, where, "%s: %d lanes instead of %d" % (what, len(got), len(exp)))
            return
        for i, (g, e) in enumerate(zip(got, exp)):
            if g == e:
                ctx.ok(rid, "%s lane %d" % (key, i))
            elif has_top(g):
                ctx.notes.append("%s lane %d: not decided" % (key, i))
            else:
                ctx.bad(rid, key, where, "%s: lane %d is %s instead of %s" % (what, i, show(g), show(e)))

    def val(k, nm):
        return pack(nm, N) if k == "V" else ("val", "", nm) if k == "S" else ("sym", nm)

    def lane(k, nm, i):
        return ("val", "", "%s%d" % (nm, i)) if k == "V" else ("val", "", nm)

    self_v = pack("s", N)
    if f.rec and name in ("operator+=", "operator-=", "operator*=", "operator/=") and len(ks) == 1:
        if ks[0] not in ("V", "S"):
            return 0
        for s, v, l in ai_run(ai, f, [val(ks[0], "b")], self_v):
            judge("lane", vec_of(ai, s.m.get(("T", "self"), TOP)), [ai.fieldop(name[8], lane("V", "s", i), lane(ks[0], "b", i)) for i in range(N)], name)
            if l is not None:
                ctx.check(l == (("T", "self"), ()), "self", key + ":ret", where, "does not return the object itself")
            ctx.check(s.m.get(("A", 0), val(ks[0], "b")) == val(ks[0], "b"), "self", key + ":arg", where, "changes its operand")
        if ks == ["V"]:
            # the operand may be the object itself
            st = State()
            st.m[("T", "self")] = self_v
            fr = ai.frame(f, (("T", "self"), ()), {f.params[0].d: (("T", "self"), ())})
            o = ai.exec(fr, f.body, st)
            for s in [x[0] for x in o.get("return", [])] + ([o["next"]] if o.get("next") is not None else []):
                judge("lane", vec_of(ai, s.m.get(("T", "self"), TOP)), [ai.fieldop(name[8], lane("V", "s", i), lane("V", "s", i)) for i in range(N)], name + " with itself")
        return 1
    if not f.rec and name in OPS and len(ks) == 2 and all(k in "VS" for k in ks):
        for s, v, l in ai_run(ai, f, [val(ks[0], "a"), val(ks[1], "b")]):
            judge("lane", vec_of(ai, v), [ai.fieldop(OPS[name], lane(ks[0], "a", i), lane(ks[1], "b", i)) for i in range(N)], name)
        return 1
    if not f.rec and name in ("operator-", "operator+") and len(ks) == 1 or f.rec and name in ("operator-", "operator+") and not ks:
        for s, v, l in ai_run(ai, f, [val("V", "a")] if not f.rec else [], pack("a", N) if f.rec else None):
            judge("lane", vec_of(ai, v), [mneg(lane("V", "a", i)) if name == "operator-" else lane("V", "a", i) for i in range(N)], name)
        return 1
    if name == "pow":
        if f.rec:
            base, pk, args = "s", ks[0], [val(ks[0], "b")]
            if ks[0].startswith("std::vector"):
                args = [("vec", None, tuple(("sym", "b%d" % i) for i in range(N)))]
        else:
            base, pk, args = "a", ks[1], [val("V", "a"), val(ks[1], "b")]
        for s, v, l in ai_run(ai, f, args, self_v if f.rec else None):
            exp = [mpow(lane("V", base, i), lane(pk, "b", i) if pk in ("V", "S") else ("sym", "b%d" % i) if pk.startswith("std::vector") else ("sym", "b")) for i in range(N)]
            judge("lane", vec_of(ai, v), exp, name)
        return 1
    if name in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=") and ks == ["V", "V"]:
        op = name[8:]

        def res(x, y):
            r = ai_run(ai, f, [pack("a", N, x), pack("b", N, y)])
            ts = {ai.truth(v) for _, v, _ in r}
            return ts.pop() if len(ts) == 1 else None

        def fl(v):
            return ("fld", K(v))

        for x, y in ((1, 2), (2, 1), (1, 1)):
            got = res((fl(x),) * N, (fl(y),) * N)
            exp = {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
            if got is None:
                ctx.notes.append("%s: not decided" % key)
            else:
                ctx.check(got == exp, "compare", key, where, "packs of %d %s packs of %d gives %s" % (x, op, y, got))
        if op in ("==", "!="):
            for i in range(N):
                for d in (3, 5):
                    x = tuple(fl(4) for _ in range(N))
                    y = tuple(fl(d if j == i else 4) for j in range(N))
                    got = res(x, y)
                    if got is None:
                        ctx.notes.append("%s: not decided" % key)
                    else:
                        ctx.check(got == (op == "!="), "compare", key, where, "packs that differ only in lane %d compare %s" % (i, "equal" if op == "==" else "unequal" if got else "equal"))
        return 1
    if name == "operator!" and f.rec:
        for ls, exp in (((("fld", K(0)),) * N, True), (tuple(("fld", K(i + 1)) for i in range(N)), False)):
            r = {ai.truth(v) for _, v, _ in ai_run(ai, f, [], pack("s", N, ls))}
            if r == {None} or len(r) != 1:
                ctx.notes.append("%s: not decided" % key)
            else:
                ctx.check(r == {exp}, "compare", key, where, "zero test of a pack of %s is wrong" % ("zeros" if exp else "non-zero numbers"))
        return 1
    if f.kind == "ctor":
        if ks == []:
            exp, args = [("fld", K(0))] * N, []
        elif ks == ["V"]:
            exp, args = list(lanes("a", N)), [pack("a", N)]
        elif ks == ["S"]:
            exp, args = [("val", "", "a")] * N, [("val", "", "a")]
        elif ks[0].startswith("std::array"):
            exp, args = list(lanes("a", N)), [("vec", None, lanes("a", N))]
        else:
            return 0
        for s, v, l in ai_run(ai, f, args, ("rec", ("new", "s"), (("vec", ("vec", None, (("unset",),) * N)),))):
            judge("access", vec_of(ai, s.m.get(("T", "self"), TOP)), exp, "constructor")
        return 1
    if f.rec and name in ("operator[]", "at") and len(ks) == 1:
        for i in range(N):
            rs = ai_run(ai, f, [K(i)], self_v)
            for s, v, l in rs:
                if l is not None:
                    ctx.check(l[1][-1:] == (("i", K(i)),), "access", key, where, "element %d designates %s" % (i, l[1]))
                elif has_top(v):
                    ctx.notes.append("%s: not decided" % key)
                else:
                    ctx.check(v == lane("V", "s", i), "access", key, where, "element %d is %s" % (i, show(v)))
            if not rs:
                ctx.bad("access", key, where, "element %d is refused" % i)
        if name == "at":
            ctx.check(not ai_run(ai, f, [K(N)], self_v), "access", key + ":range", where, "at(%d) of a pack of %d is not refused" % (N, N))
        return 1
    if f.rec and name in ("begin", "end", "size"):
        for s, v, l in ai_run(ai, f, [], self_v):
            if name == "size" and v[0] == "c":
                ctx.check(v == K(N), "access", key, where, "size is %s" % show(v))
            elif v[0] == "it":
                ctx.check(v[2] == K(0 if name == "begin" else N), "access", key, where, "%s() points to lane %s" % (name, show(v[2])))
        return 1
    return 0


def show(t):
    k = t[0] if isinstance(t, tuple) and t else ""
    if k == "val":
        return t[1] + t[2]
    if k == "fld":
        return show(t[1])
    if k == "c":
        return str(t[1])
    if k == "neg":
        return "-(%s)" % show(t[1])
    if k == "inv":
        return "1/(%s)" % show(t[1])
    if k == "sum":
        return " + ".join(show(x) for x in t[1])
    if k == "prod":
        return " * ".join(show(x) for x in t[1])
    if k == "pow":
        return "(%s)^(%s)" % (show(t[1]), show(t[2]))
    return str(t)
