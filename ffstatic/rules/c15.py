"""C15: precomputed expression constants are re-derived for each field."""
TECHNIQUE = "abstract interpretation of one preparation step per token class and preceding tokens; the kept record must denote the stored constant at the same position"
NOTE = ("Inductive over the tokens of a function: given that the records of the preceding constants are right, the step keeps them right (value, position, count, and the "
        "meaning of the whole prefix). Then the refresh after a change of field is shown to recompute each record and store it at its own place. Constant values themselves are C01.")

from ..parser import *

PLAIN = "std::vector<std::basic_string<char>>"
B = ("sym", "below")


class PrecompAI(ParserAI):
    setup = None        # (J expression, c2, c1, records)

    def initial(self, root, t, n):
        nm = str(root[-1])
        if root[0] == "this" and nm in ("precomp_tokens", "partial_rpn"):
            return ("sym", nm)
        return ParserAI.initial(self, root, t, n)

    def havoc_val(self, root, st):
        if root[0] == "this" and root[1] == "precomp_tokens":
            base = ("sym", "precomp_tokens")
            if self.setup is None:
                return ("arr", base, ())
            J, c2, c1, recs = self.setup
            cells = tuple(sorted([(ladd(J, K(-2)), c2), (ladd(J, K(-1)), c1)], key=repr))
            return ("arr", base, ((("sym", "I"), ("arr", ("at", base, ("i", ("sym", "I"))), cells)),))
        if root[0] == "this" and root[1] == "partial_rpn":
            base = ("sym", "partial_rpn")
            recs = self.setup[3] if self.setup is not None else ()
            return ("arr", base, ((("sym", "I"), ("stk", ("sym", "R"), tuple(recs), 0)),))
        return ParserAI.havoc_val(self, root, st)

    def loop_enter(self, fr, n, entry, st):
        st.m[("ghost", "size")] = ("sym", "S")
        # the rest of the record is there whether or not the loop was seen to write it
        for m in ("precomp_tokens", "partial_rpn"):
            if ("this", m) not in self.havoced.get(n, ()) and self.setup is not None:
                st.m[("this", m)] = self.havoc_val(("this", m), st)
        ParserAI.loop_enter(self, fr, n, entry, st)

    def call_model(self, fr, n, st):
        if n.k == "Call" and n.obj is not None and n.name in ("pop_back", "push_back", "emplace_back", "resize", "erase", "clear") and "pair<unsigned char" in n.obj.t and ("ghost", "size") in st.m:
            l = self.lv(fr, n.obj, st)
            v = self.read(st, l, n.obj) if l is not None else TOP
            if v[0] == "arr":
                s = st.m[("ghost", "size")]
                vs = [self.ev(fr, x, st) for x in n.args()]
                d = {"pop_back": K(-1), "push_back": K(1), "emplace_back": K(1)}.get(n.name)
                if d is not None:
                    st.m[("ghost", "size")] = ladd(s, d) if s != TOP else TOP
                elif n.name == "resize" and vs and lin(vs[0]) is not None:
                    st.m[("ghost", "size")] = vs[0]
                else:
                    st.m[("ghost", "size")] = TOP
                if n.name in ("push_back", "emplace_back", "erase", "clear"):
                    self.write(st, l, TOP)
                return TOP
        return ParserAI.call_model(self, fr, n, st)


def fix(p):
    if p[0] == "pair" and p[2][0] not in ("fld", "neg", "inv", "sum", "prod", "pow", "at", "top", "val"):
        return ("pair", p[1], ("fld", p[2]))
    return p


class Step:
    def __init__(self, ai, loop, inner, after, J):
        self.ai, self.loop, self.inner, self.after, self.J = ai, loop, inner, after, J

    def later(self, e):
        """the expression e at the end of the iteration"""
        if e is None:
            return None
        l = lin(e)
        if l is None:
            return None
        r = K(l[1])
        inv = {}
        for root, v in self.inner.m.items():
            if v[0] == "sym" and root[0] in ("L", "this"):
                inv.setdefault(v, root)
        for s, cf in l[0].items():
            root = inv.get(s)
            v = self.after.m.get(root, s) if root is not None else s
            x = lin(v)
            if x is None:
                return None
            r = ladd(r, mklin({a: b * cf for a, b in x[0].items()}, x[1] * cf))
        return r

    def cells(self):
        v = self.after.m.get(("this", "precomp_tokens"), TOP)
        if v[0] == "arr":
            for i, x in v[2]:
                if i == ("sym", "I"):
                    return x
        return None

    def window(self):
        """[(offset to J, value)] of the stored tokens from J-2 to the last one"""
        c = self.cells()
        J2 = self.later(self.J)
        if c is None or J2 is None or has_top(c):
            return None
        d = ladd(J2, self.J, -1)
        if d is None or d[0] != "c" or not -2 <= d[1] <= 8:
            return None
        return [(k, fix(self.ai.project(c, ("i", ladd(self.J, K(k)))))) for k in range(-2, d[1])]

    def new_cells(self):
        w = self.window()
        return None if w is None else [v for k, v in w if k >= 0]

    def records(self):
        v = self.after.m.get(("this", "partial_rpn"), TOP)
        if v[0] == "arr":
            for i, x in v[2]:
                if i == ("sym", "I"):
                    return x if x[0] == "stk" and not has_top(x) else None
        return None


def candidates(P):
    out = [f for f in P.fns.values() if f.recn == "ShuntingYardParser" and f.raw.get("body") is not None and not f.lam and
           any(unconst(p.t).strip(" &") == PLAIN for p in f.params) and f.ret == "void"]
    return sorted(out, key=lambda f: (f.n != "precompute", f.u))


_J = {}


def execute(P, f, tok, setup):
    ai = PrecompAI(P, tok)
    ai.setup = setup
    st = State()
    fr = ai.frame(f)
    for pv in f.params:
        t = unconst(pv.t).strip(" &")
        st.m[("L", pv.d, pv.n)] = ("tokvec", 1) if t == PLAIN else ("sym", "I")
    ai.exec(fr, f.body, st)
    l = ai.tok_loop()
    if l is None:
        return ai, None, None, None
    obs = ai.obs.get(l, [])
    if not obs:
        return ai, None, None, None
    _, inner, after, _ = obs[-1]
    return ai, l, inner, after


def base(P):
    """(function, index expression of the cell being written, form of '+')"""
    if id(P) in _J:
        return _J[id(P)]
    res = None
    for f in candidates(P):
        ai, l, inner, after = execute(P, f, "+", None)
        if l is None or after is None:
            continue
        v = after.m.get(("this", "precomp_tokens"), TOP)
        if v[0] != "arr" or len(v[2]) != 1 or v[2][0][0] != ("sym", "I") or v[2][0][1][0] != "arr":
            continue
        cells = v[2][0][1][2]
        if len(cells) == 1 and not has_top(cells[0]):
            res = (f, cells[0][0], fix(cells[0][1]))
            break
    _J[id(P)] = res
    return res


def kinds(P):
    """class -> stored pair for the classes a constant folding could look at"""
    b = base(P)
    if b is None:
        return None
    out = {"op": b[2]}
    for cl, t in (("var", VAR), ("nvar", "-" + VAR), ("num", "12")):
        s = step(P, t, ("op", "op"), out)
        c = s.new_cells() if isinstance(s, Step) else None
        if not c or len(c) != 1 or c[0][0] != "pair":
            return None
        out[cl] = c[0]
    return out


def prev(cl, ks, which):
    if cl == "op":
        return ks["op"]
    k = ks[cl][1]
    if cl == "num":
        return ("pair", k, ("val", "", "V" + which))
    return ("pair", k, ("fld", ("sym", "index" + which)))


def step(P, tok, classes, ks=None):
    """one iteration for a token after tokens of the given classes: Step, 'refused' or None (not followed)"""
    b = base(P)
    if b is None:
        return None
    f, J, plus = b
    if ks is None:
        ks = {"op": plus} if classes == ("op", "op") else kinds(P)
        if ks is None:
            return None
    c2, c1 = prev(classes[0], ks, "2"), prev(classes[1], ks, "1")
    recs = [("pair", ladd(J, K(-d)), ("vec", None, (("splice", ("sym", "rec" + w)),))) for cl, d, w in ((classes[0], 2, "2"), (classes[1], 1, "1")) if cl == "num"]
    ai, l, inner, after = execute(P, f, tok, (J, c2, c1, recs))
    if l is None:
        return None
    if after is None:
        return "refused"
    return Step(ai, l, inner, after, J)


# ---------------------------------------------------------------- meanings
class Sem:
    def __init__(self, ks, forms):
        self.ks = ks
        self.kindop = {}
        for t, p in forms.items():
            self.kindop[p[1]] = t

    def apply(self, stack, cell):
        """stack: (elems list, pops)"""
        el, p = stack
        if cell[0] != "pair":
            return None
        k, v = cell[1], cell[2]
        if k == self.ks["num"][1]:
            el.append(v)
        elif k == self.ks["var"][1] or k == self.ks["nvar"][1]:
            if v[0] != "fld":
                return None
            x = ("at", VALUES, ("i", v[1]))
            el.append(x if k == self.ks["var"][1] else mneg(x))
        elif k in self.kindop:
            return self.op(stack, self.kindop[k])
        else:
            return None
        return stack

    def op(self, stack, t):
        el, p = stack
        out = []
        for _ in range(2):
            if el:
                out.append(el.pop())
            else:
                out.append(("at", B, ("b", p)))
                p += 1
        y, x = out
        if t not in OPSPEC:
            return None
        el.append(OPSPEC[t](x, y))
        return (el, p)


def rpn_value(items):
    """field value of a recorded token list"""
    st = []
    for x in items:
        if x[0] == "splice":
            if x[1] in (("sym", "rec1"), ("sym", "rec2")):
                st.append(("val", "", "V" + x[1][1][-1]))
            elif x[1][0] == "vec" and x[1][1] is None:
                v = rpn_value(x[1][2])
                if v is None:
                    return None
                st.append(v)
            else:
                return None
        elif x[0] == "residue":
            return ("bad", "its text is a residue in the field it was prepared in")
        elif x[0] == "str":
            if x[1] in OPSPEC:
                if len(st) < 2:
                    return ("bad", "operator without operands")
                b, a = st.pop(), st.pop()
                st.append(OPSPEC[x[1]](a, b))
            else:
                m = operand_meaning(x[1])
                if m is None or m[0] != "fld":
                    return ("bad", "'%s' is not a number" % x[1])
                st.append(m)
        else:
            return None
    if len(st) != 1:
        return ("bad", "%d values are left" % len(st))
    return canon(st[0])


def run(ctx):
    ctx.rule("prefix", "preparing a token keeps the meaning of the prepared prefix (what is folded equals what is written)")
    ctx.rule("record", "every stored constant has exactly one record, at its own position, denoting the same number in every field")
    ctx.rule("count", "positions, number of tokens and number of stored entries stay in step")
    ctx.rule("refresh", "a change of field recomputes every recorded constant and stores it at its position")
    ctx.rule("stamp", "the field for which constants are valid is only advanced together with all of them")
    ctx.rule("aligned", "stored tokens and records of functions are added, moved and removed together")
    from . import c14
    P = load(("default",), {"ShuntingYardParser.cpp", "unit_math.cpp"})["default"]
    P.link()
    ops = c14.operators(P)
    b = base(P)
    ctx.need("record", candidates(P), "preparation of tokens")
    ks = kinds(P) if b is not None else None
    if ks is None:
        ctx.notes.append("the preparation step is not followed by the interpreter: prefix, record and count not decided")
    else:
        inductive(ctx, P, ops, b, ks)
    refresh(ctx, P)
    aligned(ctx, P)


def inductive(ctx, P, ops, b, ks):
    f, J, plus = b
    forms = {}
    for t in sorted(ops):
        s = step(P, t, ("op", "op"), ks)
        c = s.new_cells() if isinstance(s, Step) else None
        if c and len(c) == 1 and not has_top(c[0]):
            forms[t] = c[0]
    sem = Sem(ks, forms)
    combos = [(a, c) for a in ("op", "var", "nvar", "num") for c in ("op", "var", "nvar", "num")]
    for t in sorted(ops) + OPERANDS:
        isop = t in ops
        if isop and t not in OPSPEC:
            continue
        m = None if isop else operand_meaning(t)
        if not isop and m is None:
            continue
        for cl in (combos if isop else [("op", "op"), ("num", "num"), ("num", "var")]):
            key = "%s after %s,%s" % (t, cl[0], cl[1])
            s = step(P, t, cl, ks)
            if s == "refused":
                ctx.bad("prefix", key, f.loc(), "token '%s' is refused" % t)
                continue
            w = s.window() if s is not None else None
            if w is None:
                ctx.notes.append("%s: not decided" % key)
                continue
            # prefix meaning
            st0 = ([], 0)
            for x in (prev(cl[0], ks, "2"), prev(cl[1], ks, "1")):
                st0 = sem.apply(st0, x) if st0 is not None else None
            if st0 is not None:
                if isop:
                    st0 = sem.op(st0, t)
                else:
                    st0[0].append(m)
            st1 = ([], 0)
            for _, x in w:
                st1 = sem.apply(st1, x) if st1 is not None else None
            if st0 is None or st1 is None:
                ctx.notes.append("%s: meaning not decided" % key)
            else:
                g0 = ([canon(x) for x in st0[0]], st0[1])
                g1 = ([canon(x) for x in st1[0]], st1[1])
                ctx.check(g0 == g1, "prefix", key, f.loc(), "prepared as %s, written %s" % (", ".join(map(show, g1[0])), ", ".join(map(show, g0[0]))))
            # records
            rs = s.records()
            if rs is None:
                ctx.notes.append("%s: records not decided" % key)
            else:
                judge_records(ctx, s, w, rs, ks, key, f)
            # counting
            count(ctx, s, key, f)


def judge_records(ctx, s, w, rs, ks, key, f):
    nums = {k: v for k, v in w if v[0] == "pair" and v[1] == ks["num"][1]}
    if rs[3]:
        ctx.bad("record", key, f.loc(), "the record of an earlier constant is dropped")
        return
    seen = {}
    for r in rs[2]:
        if r[0] != "pair":
            ctx.notes.append("%s: records not decided" % key)
            return
        d = ladd(r[1], s.J, -1)
        if d is None or d[0] != "c":
            ctx.notes.append("%s: position of a record not decided" % key)
            return
        seen.setdefault(d[1], []).append(r[2])
    last = max([k for k, _ in w], default=-3)
    for k, v in sorted(nums.items()):
        if k not in seen:
            ctx.bad("record", key, f.loc(), "a stored constant has no record: it keeps the value of the field it was prepared in")
            continue
        if len(seen[k]) > 1:
            ctx.bad("record", key, f.loc(), "two records for one stored constant")
            continue
        x = seen[k][0]
        if x[0] != "vec" or x[1] is not None:
            ctx.notes.append("%s: record not decided" % key)
            continue
        m = rpn_value(x[2])
        if m is None:
            ctx.notes.append("%s: record not decided" % key)
            continue
        if m[0] == "bad":
            ctx.bad("record", key, f.loc(), "the record of a constant cannot be evaluated: " + m[1])
            continue
        ctx.check(m == canon(v[2]), "record", key, f.loc(), "the record of a constant denotes %s, stored is %s" % (show(m), show(canon(v[2]))))
    for k in seen:
        if k not in nums:
            ctx.bad("record", key, f.loc(), "a record points at %s" % ("an entry that is no constant" if -2 <= k <= last else "no stored entry"))


def count(ctx, s, key, f):
    n = s.loop
    q = next((i[1] for l, i in s.ai.reads if l is n and i[0] == "i"), None)
    cond = {"For": 1, "While": 0}.get(n.k)
    c = strip(n.c[cond]) if cond is not None and n.c[cond] is not None else None
    if q is None or c is None or not (c.k == "Bin" and c.op in ("!=", "<", ">", "<=", ">=")):
        # element-wise loops read one token per iteration by construction
        if n.k == "ForRange":
            ctx.ok("count", key)
        else:
            ctx.notes.append("%s: progress of the loop not decided" % key)
        return
    fr = s.ai.frame(f)
    a, bb = s.ai.ev(fr, c.c[0], s.inner.copy()), s.ai.ev(fr, c.c[1], s.inner.copy())
    if lin(a) is None or lin(bb) is None:
        ctx.notes.append("%s: progress of the loop not decided" % key)
        return
    if c.op in (">", ">="):
        a, bb = bb, a
    r = ladd(bb, a, -1)
    q2, r2, J2 = s.later(q), s.later(r), s.later(s.J)
    if None in (q2, r2, J2):
        ctx.notes.append("%s: progress of the loop not decided" % key)
        return
    ctx.check(ladd(q2, q, -1) == K(1), "count", key + ":next", f.loc(), "the next token read is not the following one (%s instead of +1)" % show(ladd(q2, q, -1)))
    ctx.check(ladd(ladd(q2, r2), ladd(q, r), -1) == K(0), "count", key + ":rest", f.loc(), "tokens at the end are skipped or read past the end (%s)" % show(ladd(ladd(q2, r2), ladd(q, r), -1)))
    S, S2 = ("sym", "S"), s.after.m.get(("ghost", "size"), TOP)
    if S2 == TOP or lin(S2) is None:
        ctx.notes.append("%s: number of stored entries not decided" % key)
        return
    lhs = ladd(ladd(S2, S, -1), ladd(ladd(J2, r2), ladd(s.J, r), -1), -1)
    ctx.check(lhs == K(0), "count", key + ":entries", f.loc(), "the number of stored entries is off by %s" % show(lhs))


# ---------------------------------------------------------------- refresh
class RefreshAI(PrecompAI):
    def initial(self, root, t, n):
        nm = str(root[-1])
        if root[0] == "this" and nm in ("precomp_tokens", "partial_rpn"):
            return ("sym", nm)
        return ParserAI.initial(self, root, t, n)

    def project(self, v, a):
        return PrecompAI.project(self, v, a)

    def call_model(self, fr, n, st):
        g = self.P.callee(n)
        if n.k == "Call" and g is not None and g.recn == "ShuntingYardParser" and g.ret == "firefly::FFInt" and g.params and unconst(g.params[0].t).strip(" &") == PLAIN:
            return ("call", "evaluate", (self.ev(fr, n.args()[0], st),))
        if n.k == "Call" and g is not None and g.recn == "ShuntingYardParser" and g in candidates(self.P):
            self.prep.append((self.active[-1] if self.active else None, [self.ev(fr, x, st) for x in n.args()], n))
            return TOP
        return PrecompAI.call_model(self, fr, n, st)


def refreshers(P):
    """methods that react to a change of the prime: read the modulus and the stamp"""
    out = []
    for f in P.fns.values():
        if f.recn == "ShuntingYardParser" and f.raw.get("body") is not None and not f.lam:
            if any(n.k == "Assign" and strip(n.c[0]).k == "Member" and strip(n.c[0]).name == "prime_internal" for n in f.walk()):
                out.append(f)
    return out


def scenario(P, f, precomputed, force, stale):
    ai = RefreshAI(P, "12")
    ai.prep = []
    st = State()
    fr = ai.frame(f)
    for pv in f.params:
        st.m[("L", pv.d, pv.n)] = K(force) if pv.t == "bool" else ("sym", pv.n)
    st.m[("S", "firefly::FFInt::p")] = K(101)
    st.m[("this", "prime_internal")] = K(7 if stale else 101)
    st.m[("this", "precomputed")] = K(precomputed)
    st.m[("this", "keep_rpn")] = K(1)
    out = ai.exec(fr, f.body, st)
    sts = [s for s, _, _ in out.get("return", [])] + ([out["next"]] if out.get("next") is not None else [])
    return ai, sts


def refresh(ctx, P):
    fs = refreshers(P)
    ctx.need("refresh", fs, "methods that record the field of the constants")
    b = base(P)
    ks = kinds(P) if b is not None else None
    for f in fs:
        if f.n.startswith("ShuntingYardParser") or f.kind == "ctor":
            continue
        if any(p.t != "bool" for p in f.params):
            # a method that prepares one function must not advance the stamp on its own
            ok = True
            for n in f.walk():
                if n.k == "Assign" and strip(n.c[0]).k == "Member" and strip(n.c[0]).name == "prime_internal":
                    ok = False
            ctx.check(ok, "stamp", f.n, f.loc(), "advances the field of all constants while preparing one function")
            continue
        # 1. stale and prepared: every record refreshed
        ai, sts = scenario(P, f, 1, 0, True)
        if len(sts) != 1:
            ctx.notes.append("%s: refresh not decided" % f.n)
            continue
        s = sts[0]
        ctx.check(s.m.get(("this", "prime_internal")) == K(101), "stamp", f.n + ":refresh", f.loc(), "the refreshed field is not recorded")
        judge_refresh(ctx, f, ai, ks)
        # 2. same field, prepared, not forced: nothing may change
        # 3. not prepared or forced: every function is prepared from its full tokens
        for pre, force, stale in ((0, 0, True), (1, 1, True), (1, 1, False)):
            ai, sts = scenario(P, f, pre, force, stale)
            key = "%s:prepare(%d%d%d)" % (f.n, pre, force, stale)
            if not ai.prep:
                ctx.bad("refresh", key, f.loc(), "functions are not prepared")
                continue
            for loop, vs, n in ai.prep:
                ok = any(v[0] == "tokvec" for v in vs)
                ctx.check(ok and loop is not None, "refresh", key, n.loc(), "not every function is prepared from its tokens")
                if loop is not None:
                    whole_range(ctx, ai, loop, key, n, f)
            for s in sts:
                ctx.check(s.m.get(("this", "prime_internal")) == K(101), "stamp", key, f.loc(), "the field of the prepared constants is not recorded")


def whole_range(ctx, ai, loop, key, n, f, names=("functions", "precomp_tokens", "partial_rpn")):
    if loop.k == "ForRange":
        ctx.ok("refresh", key + ":range")
        return
    if loop.k != "For" or loop.c[0] is None:
        ctx.notes.append("%s: range of the loop not decided" % key)
        return
    vs = loop.c[0].vars
    c = strip(loop.c[1])
    obs = ai.obs.get(loop)
    if not vs or c is None or c.k != "Bin" or not obs:
        ctx.notes.append("%s: range of the loop not decided" % key)
        return
    inner = obs[-1][1]
    fr = ai.frame(f)
    lo = ai.ev(fr, vs[0].init, inner.copy()) if vs[0].init is not None else TOP
    hi = ai.ev(fr, c.c[1], inner.copy())
    var = strip(c.c[0])
    it = ai.ev(fr, var, inner.copy())
    okhi = hi[0] == "size" or hi == TOP or has_top(hi) or lin(hi) is None
    if lo[0] == "c":
        ctx.check(lo == K(0), "refresh", key + ":from", n.loc(), "starts at function %s" % show(lo))
    l = lin(hi)
    if l is not None and c.op in ("!=", "<"):
        ctx.check(l[1] == 0 and len(l[0]) <= 1, "refresh", key + ":to", n.loc(), "ends at %s" % show(hi))
    elif l is not None and c.op == "<=":
        ctx.check(l[1] == -1, "refresh", key + ":to", n.loc(), "ends at %s" % show(hi))


def judge_refresh(ctx, f, ai, ks):
    done = 0
    for loop, obs in ai.obs.items():
        for entry, inner, after, out in obs:
            if after is None or inner is None:
                continue
            v, w = inner.m.get(("this", "precomp_tokens")), after.m.get(("this", "precomp_tokens"))
            if w is None or v == w:
                continue
            if has_top(w) or w[0] != "arr":
                ctx.notes.append("%s: refresh not decided" % f.n)
                return
            for i, row in w[2]:
                if row[0] != "arr":
                    continue
                for j, cell in row[2]:
                    cell = fix(cell)
                    done += 1
                    key = f.n + ":entry"
                    if cell[0] != "pair":
                        ctx.notes.append("%s: refresh not decided" % f.n)
                        continue
                    # j is the position of a record r, the value is the evaluation of the same record
                    r = j[1] if j[0] == "at" and j[2] == ("f", "first") else None
                    val = cell[2]
                    if val[0] == "fld":
                        val = val[1]
                    if r is None:
                        ctx.bad("refresh", key, f.loc(), "the refreshed value is stored at %s, not at the record's position" % show(j))
                        continue
                    ctx.check(val == ("call", "evaluate", (("at", r, ("f", "second")),)), "refresh", key, f.loc(), "the stored value is %s, not the record's" % show(val))
                    if ks is not None:
                        ctx.check(cell[1] == ks["num"][1], "refresh", key + ":kind", f.loc(), "the refreshed entry is stored as kind %s" % show(cell[1]))
                    row_r = r[1] if r[0] == "at" else None
                    ok = row_r is not None and row_r[0] == "at" and row_r[1] == ("sym", "partial_rpn")
                    if ok:
                        ri = row_r[2]
                        ctx.check(ri == ("i", i) or ri[0] == "elem", "refresh", key + ":function", f.loc(), "records of another function are used")
                    else:
                        ctx.notes.append("%s: origin of the record not decided" % f.n)
            whole = loop
            whole_range(ctx, ai, whole, f.n + ":records", loop, f)
    # outer loops
    for loop in ai.obs:
        if any(True for x in loop.walk() if x.k in ("For", "ForRange", "While") and x is not loop):
            whole_range(ctx, ai, loop, f.n + ":functions", loop, f)
    if not done:
        ctx.bad("refresh", f.n + ":none", f.loc(), "a change of field does not refresh the stored constants")


# ---------------------------------------------------------------- alignment
TOKS = "std::vector<std::vector<std::pair<unsigned char, firefly::FFInt>>>"
RECS = "std::vector<std::vector<std::pair<unsigned long, std::vector<std::basic_string<char>>>>>"
STRUCT = ("emplace_back", "push_back", "pop_back", "erase", "insert", "resize", "clear", "swap", "assign", "emplace", "=")


def struct_ops(f):
    """(scope, operation, argument shape, which side, node) of every change of the number or order of functions"""
    out = []
    for n in f.walk():
        if n.k != "Call":
            continue
        if n.obj is not None and n.name in STRUCT:
            t, args, nm = n.obj.t, n.args(), n.name
        elif n.op == "=" and len(n.args()) == 2:
            t, args, nm = n.args()[0].t, n.args()[1:], "="
        else:
            continue
        t = unconst(t).strip(" &")
        side = "T" if t == TOKS else "R" if t == RECS else None
        if side is None:
            continue
        idx = []
        for a in args:
            for x in a.walk():
                if x.k == "Sub" or x.k == "Call" and x.op == "[]":
                    b = x.c[0] if x.k == "Sub" else x.args()[0]
                    if unconst(b.t).strip(" &") in (TOKS, RECS):
                        idx.append(txt(x.c[1] if x.k == "Sub" else x.args()[1]))
                if x.k == "Call" and x.name == "at" and x.obj is not None and unconst(x.obj.t).strip(" &") in (TOKS, RECS):
                    idx.append(txt(x.args()[0]))
        scope = next((a.id for a in n.ancestors() if a.k in ("Compound", "For", "ForRange", "While")), -1)
        out.append((scope, "add" if nm in ("emplace_back", "push_back", "emplace") else nm, tuple(idx), side, n))
    return out


def aligned(ctx, P):
    cnt = 0
    for f in sorted(P.fns.values(), key=lambda f: f.u):
        if f.raw.get("body") is None or f.recn != "ShuntingYardParser":
            continue
        ops = struct_ops(f)
        if not ops:
            continue
        by = {}
        for sc, nm, idx, side, n in ops:
            by.setdefault((sc, nm, idx), {"T": 0, "R": 0, "n": n})[side] += 1
        for (sc, nm, idx), d in sorted(by.items(), key=lambda x: x[0][0]):
            cnt += 1
            ctx.check(d["T"] == d["R"], "aligned", "%s:%s%s" % (f.n, nm, "[%s]" % ",".join(idx) if idx else ""), d["n"].loc(),
                      "the stored tokens and the records of the functions are not changed alike (%d against %d)" % (d["T"], d["R"]))
    ctx.need("aligned", cnt, "changes of the list of prepared functions")
