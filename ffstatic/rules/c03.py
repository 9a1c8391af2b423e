"""C03: only distinct 63-bit prime fields are ever used."""
TECHNIQUE = "constant evaluation of the prime table, value provenance of every field switch, upper-bound dataflow on table indices"
NOTE = ("Exact for the table (deterministic Miller-Rabin on every constant). Every store to the modulus is traced to the table; indices are bounded by an "
        "interprocedural upper-bound analysis, with class members assumed in range on entry and shown in range on exit. Indices received over MPI are trusted to be what the master sent (C13).")

from ..core import *
from ..core import strip
from ..inter import *


def is_prime(n):
    if n < 2:
        return False
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % q == 0:
            return n == q
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def table(P):
    out = []
    for f in P.fn("firefly::primes"):
        lists = []
        nodes = list(f.walk())
        for n in list(nodes):
            if n.k == "Ref" and n.d.get("dk") == "global":
                for g in P.globals.values():
                    if g.q == n.d["q"] and g.init is not None:
                        nodes += list(g.init.walk())
        for n in nodes:
            if n.k == "InitList":
                vs = [strip(a).cv if strip(a) is not None else None for a in n.args()]
                if len(vs) >= 2 and all(v is not None for v in vs):
                    lists.append((n, vs))
        if lists:
            out.append((f,) + max(lists, key=lambda x: len(x[1])))
    return out


def is_primes_call(n):
    return n is not None and n.k == "Call" and n.d.get("fq", "").split("<")[0].endswith("firefly::primes") or (n is not None and n.k == "Call" and n.name == "primes")


class Prov:
    """where a value stored into the modulus comes from"""

    def __init__(self, P):
        self.P = P
        self.cache = {}

    def decls(self, f):
        if f.u not in self.cache:
            d, asg, rng = {}, {}, {}
            for n in f.walk():
                for v in n.vars:
                    d[v.d] = v
                if n.k == "Assign" and n.op == "=":
                    l = strip(n.c[0])
                    if l is not None and l.k == "Ref":
                        asg.setdefault(l.d["d"], []).append(n.c[1])
            self.cache[f.u] = (d, asg)
        return self.cache[f.u]

    def is_table(self, f, n, seen):
        n = strip(n)
        if n is None:
            return False
        if is_primes_call(n):
            return True
        if n.k == "Ref" and n.d.get("dk") == "local":
            v = self.lookup(f, n.d["d"])
            if v is not None and v.init is not None:
                return self.is_table(v.fn, v.init, seen)
        if n.k == "Un" and n.op in ("*", "&"):
            return self.is_table(f, n.c[0], seen)
        if n.k == "Call" and n.op == "*" and n.args():
            return self.is_table(f, n.args()[0], seen)
        if n.k == "Call" and n.obj is not None and n.name in ("begin", "cbegin", "data"):
            return self.is_table(f, n.obj, seen)
        if n.k == "Call" and n.name in ("next", "find", "begin", "cbegin", "lower_bound") and n.args():
            return self.is_table(f, n.args()[0], seen)
        if n.k in ("Bin",) and n.op in ("+", "-"):
            return self.is_table(f, n.c[0], seen)
        if n.k == "Call" and n.op in ("+", "-") and n.args():
            return self.is_table(f, n.args()[0], seen)
        if n.k == "Construct" and len(n.args()) == 1:
            return self.is_table(f, n.args()[0], seen)
        return False

    def lookup(self, f, d):
        while f is not None:
            v = self.decls(f)[0].get(d)
            if v is not None:
                return v
            f = f.parent_fn
        return None

    def good(self, f, n, seen=()):
        """None if the value is known to be a member of the table / the current modulus; else a reason"""
        n = strip(n)
        if n is None:
            return "no value"
        if n.k == "Call" and (n.op == "[]" and self.is_table(f, n.args()[0], seen) or n.obj is not None and n.name in ("at", "front", "back") and self.is_table(f, n.obj, seen)):
            return None
        if n.k == "Sub" and self.is_table(f, n.c[0], seen):
            return None
        if (n.k == "Un" and n.op == "*" or n.k == "Call" and n.op == "*") and self.is_table(f, (n.c[0] if n.k == "Un" else n.args()[0]), seen):
            return None
        if n.k == "Cond":
            return self.good(f, n.c[1], seen) or self.good(f, n.c[2], seen)
        if n.k in ("Member", "Ref") and n.d.get("q", "") == "firefly::FFInt::p":
            return None
        if n.k == "Construct" and len(n.args()) == 1:
            return self.good(f, n.args()[0], seen)
        if n.k == "Member":
            # a member used to keep a modulus: every store to it has to be good
            key = ("m", n.d.get("q") or n.name)
            if key in seen:
                return None
            sts = []
            for g in self.P.fns.values():
                for x in g.walk():
                    if x.k == "Assign" and x.op == "=":
                        l = strip(x.c[0])
                        if l is not None and l.k == "Member" and l.name == n.name and l.d.get("q") == n.d.get("q"):
                            sts.append((g, x.c[1]))
            if not sts:
                return "member %s is never set from the prime table" % n.name
            for g, x in sts:
                r = self.good(g, x, seen + (key,))
                if r and strip(x).cv != 0:
                    return r
            return None
        if n.k == "Call" and n.d.get("noargs_value") is None:
            g = self.P.callee(n)
            if g is not None and g.u not in seen:
                rets = [x for x in g.walk() if x.k == "Return" and x.c]
                if rets:
                    for r in rets:
                        why = self.good(g, r.c[0], seen + (g.u,))
                        if why:
                            return why
                    return None
        if n.k == "Ref":
            d = n.d["d"]
            key = (f.u, d)
            if key in seen:
                return None
            seen = seen + (key,)
            g = f
            while g is not None:
                ps = g.params
                for i, pv in enumerate(ps):
                    if pv.d == d:
                        cs = self.P.callers().get(g.u, ())
                        if not cs:
                            return None       # API: nothing in the library passes anything else
                        for h, call in cs:
                            a = call.args()
                            if call.op == "()" and g.lam:
                                a = a[1:]
                            if i < len(a):
                                r = self.good(h, a[i], seen)
                                if r:
                                    return "%s (passed in %s at %s)" % (r, h.q, call.loc())
                        return None
                g = g.parent_fn
            v = self.lookup(f, d)
            if v is not None:
                # range variable over the table
                if v.node is not None and v.node.p is not None and v.node.p.k == "ForRange" and any(is_primes_call(x) for x in v.node.p.walk() if x.k == "Call" and x.name == "primes"):
                    return None
                srcs = ([v.init] if v.init is not None else []) + self.decls(v.fn)[1].get(d, [])
                if not srcs:
                    return "uninitialised value"
                for s in srcs:
                    if v.init is s and strip(s).cv == 0:
                        continue
                    r = self.good(v.fn, s, seen)
                    if r:
                        return r
                return None
        return "'%s' is not an element of the prime table" % txt(n)[:60]


BIG = 10 ** 9


class Bound(Inter):
    """upper bounds of index variables; state: frozenset of (path, hi)"""

    def __init__(self, P, N, ctx, members):
        Inter.__init__(self, P)
        self.N = N
        self.ctx = ctx
        self.members = members
        self.sites = {}
        self.over = {}
        self.names = None
        self.rel_cond = {}

    def is_event(self, n, fn):
        if n.k == "Call" and n.name == "primes":
            return True
        return n.k == "Member" and n.name in self.members and n.p is not None and (
            n.p.k == "Assign" and n.p.c[0] is n or n.p.k == "Un" and n.p.op in ("++", "--"))

    def join(self, a, b):
        da, db = dict(a), dict(b)
        out = {}
        for k in set(da) | set(db):
            if k in da and k in db:
                out[k] = da[k] if db[k] <= da[k] else self.widen(db[k])
            elif self.tracked(k):
                out[k] = max(da.get(k, self.N - 1), db.get(k, self.N - 1))
        return frozenset(out.items())

    def widen(self, v):
        return next(t for t in (-1, 0, self.N - 2, self.N - 1, self.N, self.N + 1, BIG) if t >= v)

    def tracked(self, p):
        return p[0] == "this" and p[-1] in self.members

    def look(self, st, p):
        for k, v in st:
            if k == p:
                return v
        if self.tracked(p):
            return self.N - 1
        return None

    def ev(self, fr, n, st, depth=0):
        n = strip(n)
        if n is None or depth > 12:
            return None
        if n.cv is not None:
            return n.cv
        if n.k in ("Ref", "Member"):
            return self.look(st, fr.of(n))
        if n.k == "Construct" and len(n.args()) == 1:
            return self.ev(fr, n.args()[0], st, depth + 1)
        if n.k == "Call" and n.name == "size" and n.obj is not None and self.tab(n.obj, fr):
            return self.N
        if n.k == "Bin":
            a, b = self.ev(fr, n.c[0], st, depth + 1), self.ev(fr, n.c[1], st, depth + 1)
            bc = strip(n.c[1]).cv
            if n.op == "+" and a is not None and b is not None:
                return min(a + b, BIG)
            if n.op == "-" and a is not None and bc is not None:
                return max(a - bc, 0)
            if n.op == "%" and b is not None:
                return b - 1
            if n.op == "*" and a is not None and b is not None:
                return min(a * b, BIG)
            if n.op == "/" and a is not None:
                return a
        if n.k == "Call" and n.name == "min" and len(n.args()) == 2:
            vs = [self.ev(fr, x, st, depth + 1) for x in n.args()]
            # a known bound is not enough when the other operand is the sentinel: min of both
            vs = [v for v in vs if v is not None]
            return min(vs) if vs else None
        if n.k == "Cond":
            sa, sb = self.refine(fr, n.c[0], True, st), self.refine(fr, n.c[0], False, st)
            a, b = self.ev(fr, n.c[1], sa, depth + 1), self.ev(fr, n.c[2], sb, depth + 1)
            if a is not None and b is not None:
                return max(a, b)
        if n.k == "Un" and n.op in ("++", "--"):
            return self.ev(fr, n.c[0], st, depth + 1)
        return None

    def tab(self, n, fr):
        n = strip(n)
        if is_primes_call(n):
            return True
        if n is not None and n.k == "Ref":
            v = fr.paths.decls.get(n.d["d"])
            return v is not None and v.init is not None and is_primes_call(strip(v.init))
        return False

    def index_vars(self):
        """names of variables that occur (directly or through other locals) in an index into the table"""
        if self.names is None:
            names = set(self.members)
            grew = True
            while grew:
                grew = False
                for f in self.P.fns.values():
                    if not self.relevant(f):
                        continue
                    for n in f.walk():
                        src = None
                        if n.k == "Call" and n.args() and (n.op == "[]" and is_primes_call(strip(n.args()[0])) or n.name == "at" and n.obj is not None):
                            src = [n.args()[-1]]
                            if n.op == "[]" and not is_primes_call(strip(n.args()[0])):
                                continue
                        elif n.k == "Assign" and strip(n.c[0]).name in names:
                            src = [n.c[1]]
                        elif n.k == "Decl":
                            src = [v.init for v in n.vars if v.n in names and v.init is not None]
                        for x in src or ():
                            for y in x.walk():
                                if y.k in ("Ref", "Member") and y.name not in names and y.d.get("dk") in ("local", "param", None) and ("int" in y.t or "long" in y.t):
                                    names.add(y.name)
                                    grew = True
            self.names = names
        return self.names

    def set(self, st, p, v):
        if p[-1] not in self.index_vars():
            return st
        s = frozenset((k, x) for k, x in st if k != p)
        if v is not None:
            if v > self.N + 8:
                v = BIG
            s = s | frozenset([(p, v)])
        elif self.tracked(p):
            s = s | frozenset([(p, -1)])     # unknown source (received, read back)
        return s

    def refine(self, fr, c, truth, st):
        c, neg = leaf_cond(c)
        if c is None:
            return st
        t = truth != neg
        if c.k != "Bin" or c.op not in ("<", "<=", ">", ">=", "==", "!="):
            return st
        op, l, r = c.op, c.c[0], c.c[1]
        for a, b, o in ((l, r, op), (r, l, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
            p = fr.of(a)
            x = self.look(st, p)
            y = self.ev(fr, b, st)
            if p[0] == "?" or y is None or strip(a).cv is not None:
                continue
            if not t:
                o = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[o]
            cap = {"<": y - 1, "<=": y, "==": y}.get(o)
            if cap is not None:
                st = self.set(st, p, cap if x is None else min(x, cap))
            elif o == "!=" and x == y and strip(b).cv is not None:
                st = self.set(st, p, x - 1)
            elif o == "!=" and x == y and strip(b).k == "Call":
                st = self.set(st, p, x - 1)
        return st

    def wants(self, kind, n, fn):
        return kind == "S" and (n.k in ("Decl", "Assign") or n.k == "Un" and n.op in ("++", "--", "&") or n.k == "Call" and (n.op == "[]" or n.name == "at"))

    def edge(self, fr, B, i, st):
        c = fr.fn.cfg.cond(B)
        if c is None or len(B.s) != 2:
            return st
        k = (fr.fn.u, c.id)
        if k not in self.rel_cond:
            names = self.index_vars()
            self.rel_cond[k] = any(x.k in ("Ref", "Member") and x.name in names for x in c.walk())
        if not self.rel_cond[k]:
            return st
        return self.refine(fr, c, i == 0, st)

    def event(self, fr, kind, n, st):
        if kind != "S":
            return st
        if n.k == "Decl":
            for v in n.vars:
                if v.init is not None and not by_ref(v.t):
                    st = self.set(st, ("L", v.d, v.n), self.ev(fr, v.init, st))
            return st
        if n.k == "Assign":
            p = fr.of(n.c[0])
            if n.op == "=":
                return self.set(st, p, self.ev(fr, n.c[1], st))
            if n.op == "+=":
                a, b = self.look(st, p), self.ev(fr, n.c[1], st)
                return self.set(st, p, None if a is None or b is None else a + b)
            if n.op == "-=":
                return st
            return self.set(st, p, None)
        if n.k == "Un" and n.op in ("++", "--"):
            p = fr.of(n.c[0])
            a = self.look(st, p)
            if a is None or a == -1 or n.op == "--":
                return st
            for x in n.ancestors():
                if x.k == "ForRange" and any(y.k == "Call" and y.name == "primes" for z in x.kids()[:-1] for y in z.walk()):
                    return self.set(st, p, self.N - 1)      # counts table entries before the current modulus
            return self.set(st, p, a + 1)
        if n.k == "Un" and n.op == "&":
            p = fr.of(n.c[0])
            if p[0] in ("L", "this") and n.p is not None and any(a.k == "Call" for a in [n.p, n.p.p] if a is not None):
                return self.set(st, p, None)
        if n.k == "Call" and (n.op == "[]" and n.args() and self.tab(n.args()[0], fr) or n.name == "at" and n.obj is not None and self.tab(n.obj, fr)):
            if fr.fn.recn not in ("RatReconst", "PolyReconst"):      # there only the product of primes is kept, no field is chosen
                ix = n.args()[-1]
                hi = self.ev(fr, ix, st)
                key = (strip_targs(fr.fn.q), txt(ix)[:50])
                old = self.sites.get((n.loc(), key))
                if old is None or hi is not None and (old is not None and old[1] is not None and hi > old[1] or old[1] is None):
                    self.sites[(n.loc(), key)] = (n, hi, fr.chain())
        return st


def run(ctx):
    ctx.rule("table", "every entry of the prime table is a prime of exactly 63 bits and differs from all others")
    ctx.rule("immutable", "the prime table cannot be changed")
    ctx.rule("initial", "the field in use before any switch is a table entry, with matching auxiliary constant")
    ctx.rule("switch", "every value stored as the modulus is an element of the prime table (or the previous modulus)")
    ctx.rule("aux", "a function that stores the modulus stores the auxiliary inverse of the same value (FLINT)")
    ctx.rule("bound", "an index into the prime table is below its size")
    cfgs = ("default", "flint", "mpi")
    progs = load(cfgs)
    seen = set()
    for cfg, P in progs.items():
        tabs = table(P)
        ctx.need("table", len(tabs), "firefly::primes has no constant table")
        f, node, vs = tabs[0]
        N = len(vs)
        if cfg == cfgs[0]:
            for i, v in enumerate(vs):
                why = None
                if v < 0:
                    v += 1 << 64
                if v >= 1 << 63:
                    why = "is not below 2^63"
                elif v < 1 << 62:
                    why = "is not a 63-bit number"
                elif not is_prime(v):
                    why = "is not prime"
                elif v in vs[:i]:
                    why = "is listed twice"
                e = [a for a in node.args()][i]
                ctx.check(why is None, "table", "entry:%d" % v, e.loc(), "prime table entry %d %s" % (v, why), "%d" % v)
            ctx.check("const" in f.ret, "immutable", "primes", f.loc(), "the prime table is handed out as modifiable", f.ret)
        # initial values
        g = {x.q: x for x in P.globals.values()}
        gp, gi = g.get("firefly::FFInt::p"), g.get("firefly::FFInt::p_inv")
        if gp is None or gp.init is None:
            raise AnalysisError("FFInt::p not found")
        p0 = strip(gp.init)
        pv = p0.cv
        loc = "%s:%d" % (os.path.relpath(gp.file, REPO), gp.line)
        if pv is not None:
            ctx.check(pv in vs, "initial", "p:%s" % cfg, loc, "the initial modulus %d is not in the prime table" % pv, "p = %d" % pv)
        else:
            ok = any(x.k == "Call" and x.name == "primes" for x in p0.walk())
            ctx.check(ok, "initial", "p:%s" % cfg, loc, "the initial modulus does not come from the prime table")
        if cfg == "flint" and gi is not None and gi.init is not None and strip(gi.init).cv is not None and pv:
            d = pv << (64 - pv.bit_length())
            want = ((1 << 128) - 1) // d - (1 << 64)
            got = strip(gi.init).cv % (1 << 64)
            ctx.check(want == got, "initial", "p_inv", "%s:%d" % (os.path.relpath(gi.file, REPO), gi.line), "the initial auxiliary inverse is %d, the initial modulus needs %d" % (got, want), "p_inv = %d" % got)
        # stores
        pr = Prov(P)
        P.callers()
        stores = 0
        for f in P.fns.values():
            wr = []
            for n in f.walk():
                t = None
                if n.k == "Assign":
                    t = strip(n.c[0])
                elif n.k == "Un" and n.op in ("++", "--", "&"):
                    t = strip(n.c[0])
                if t is not None and t.k in ("Member", "Ref") and t.d.get("q") == "firefly::FFInt::p":
                    wr.append(n)
            if not wr:
                continue
            for n in wr:
                stores += 1
                why = "the modulus is modified in place" if n.k == "Un" or n.op != "=" else None
                if why is None:
                    # one obligation per caller that provides the value
                    v = strip(n.c[1])
                    idx = next((i for i, q in enumerate(f.params) if v.k == "Ref" and q.d == v.d["d"]), None)
                    if idx is not None:
                        for h, call in P.callers().get(f.u, ()):
                            r = pr.good(h, call.args()[idx])
                            key = "%s:%s" % (strip_targs(h.q), txt(call)[:60])
                            if (key, call.loc()) in seen and r is None:
                                continue
                            seen.add((key, call.loc()))
                            ctx.check(r is None, "switch", key, call.loc(), "the field is switched to a value that need not be a listed prime: %s" % r)
                        continue
                    why = pr.good(f, v)
                ctx.check(why is None, "switch", "%s:%s" % (strip_targs(f.q), txt(n)[:60]), n.loc(), "modulus stored: %s" % why)
            if cfg == "flint":
                aux(ctx, f)
        ctx.need("switch", stores, "no store to FFInt::p found [%s]" % cfg)
        # bounds
        members = set()
        for f in P.fns.values():
            for n in f.walk():
                if n.k == "Call" and (n.op == "[]" and n.args() and is_primes_call(strip(n.args()[0])) or n.name == "at" and n.obj is not None and is_primes_call(strip(n.obj))):
                    for m in n.args()[-1].walk():
                        if m.k == "Member" and m.c and strip(m.c[0]) is not None and strip(m.c[0]).k == "This" and f.recn in ("Reconstructor", "MPIWorker", "ShuntingYardParser"):
                            members.add(m.name)
        B = Bound(P, N, ctx, members)
        for f in P.fns.values():
            if f.cfg is None or not B.relevant(f):
                continue
            cs = P.callers().get(f.u, ())
            if f.raw.get("acc") == "private" and f.kind == "method" and any(h.recn == f.recn for h, _ in cs):
                continue
            if f.recn == "RatReconst":
                continue
            ex = B.run(f, frozenset())
            if ex is None:
                continue
            for p, hi in ex:
                if B.tracked(p):
                    key = "%s:%s" % (strip_targs(f.q), p[-1])
                    ctx.check(hi < N, "bound", "exit:" + key, f.loc(), "%s can leave %s at %s, past the last of the %d primes" % (f.q, p[-1], hi if hi < BIG else "any value", N))
        for (loc, key), (n, hi, chain) in sorted(B.sites.items()):
            k = "%s:%s" % key
            if (loc, k) in seen and (hi is None or hi < N):
                continue
            seen.add((loc, k))
            if hi is None or hi == -1:
                ctx.notes.append("index %s at %s: source outside the program (received)" % (key[1], loc)) if cfg == "mpi" else None
                continue
            ctx.check(hi < N, "bound", k, loc, "index '%s' can reach %s but the table has %d entries (%s)" % (key[1], hi if hi < BIG else "any value", N, chain))
    ctx.need("bound", ctx.n("bound"), "no table access")


def aux(ctx, f):
    P = Paths(f)

    def tr(kind, n, st):
        if kind == "S" and is_exit(n):
            return None
        if kind == "S" and n.k == "Assign":
            l = strip(n.c[0])
            q = l.d.get("q") if l.k in ("Member", "Ref") else None
            p, i = st
            if q == "firefly::FFInt::p":
                r = strip(n.c[1])
                return (P.of(r) if r.cv is None else ("c", r.cv), i)
            if q == "firefly::FFInt::p_inv":
                r = strip(n.c[1])
                if r.k == "Call" and r.args() and "preinvert" in r.name:
                    a = strip(r.args()[0])
                    src = p if a.d.get("q") == "firefly::FFInt::p" else (P.of(a) if a.cv is None else ("c", a.cv))
                    return (p, src)
                return (p, ("?", n.id))
        return st

    inn = forward(f, ("p0", "p0"), tr, lambda a, b: a if a == b else (a[0], "mixed"))
    ex = inn.get(f.cfg.exit)
    ctx.check(ex is None or ex[0] == ex[1], "aux", strip_targs(f.q), f.loc(), "the modulus is stored without recomputing its auxiliary inverse from the same value")
