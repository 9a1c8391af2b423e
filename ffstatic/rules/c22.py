"""C22: all bunch sizes are dispatched to a matching evaluation."""
import re
from ..core import *
from ..core import strip
from ..inter import *
from ..inter import leaf_cond
from ..bits import *
from ..bits import width, cast, top
from ..conc import method_of

TECHNIQUE = "abstract interpretation (intervals with known bits) of the size computation over all arguments, and exhaustiveness/typestate analysis of the dispatch in the control-flow graphs"
NOTE = ("The set of sizes is computed for every accepted maximum and all queue lengths and thread numbers at once. The dispatch is decided per size along every path up to the evaluation call. "
        "What one evaluation of a pack returns is C02.")

SIZEFN = "firefly::compute_bunch_size"
PRIMARY = "StubBlackBox"
SUBMIT = ("run_task", "run_priority_task", "run_packaged_task", "run_packaged_priority_task")
FULL = (1 << 32) - 1


def lanes(t):
    """number of points a value vector type holds per entry"""
    m = re.search(r"FFIntVec<(\d+)", t)
    if m:
        return int(m.group(1))
    return 1 if "FFInt" in t else None


def size_fns(P):
    """the size computation and functions that only hand its result on"""
    out = {f.u: f for f in P.fn(SIZEFN) if f.raw.get("body") is not None}
    changed = True
    while changed:
        changed = False
        for f in P.fns.values():
            if f.u in out or f.raw.get("body") is None or f.lam:
                continue
            rets = [strip(n.args()[0]) for n in f.walk() if n.k == "Return" and n.args()]
            if rets and all(r is not None and r.k == "Call" and r.callee in out for r in rets):
                out[f.u] = f
                changed = True
    return out


class Look(Bits):
    """expressions of a frame with the chosen size (or member value) put in"""

    def __init__(self, P, fr, value):
        Bits.__init__(self, P)
        self.fr = fr
        self.value = value

    def ev(self, n, e, depth=0):
        if depth == 0:
            m = strip(n)
            if m is not None and m.cv is None:
                v = self.value(self.fr, m)
                if v is not None:
                    w, s = width(m.t)
                    return [(cast(v, w, s), e)]
                if m.k in ("Ref", "Member", "Call", "Sub") and not (m.k == "Call" and m.d.get("fq", "").startswith(("std::min", "std::max"))):
                    g = self.P.callee(m) if m.k == "Call" else None
                    if g is None or g.recn or not m.args():
                        w, s = width(m.t)
                        return [(top(w, s), e)]
        return Bits.ev(self, n, e, depth)

    def truths(self, n):
        try:
            return {t for t, _ in self.truth(n, Env())}
        except (Undecided, AnalysisError, AttributeError, IndexError, TypeError):
            return {True, False}

    def val(self, n):
        try:
            vs = {v.key(): v for v, _ in self.ev(n, Env())}
        except (Undecided, AttributeError, IndexError, TypeError):
            return None
        return list(vs.values())[0] if len(vs) == 1 else None


def case_values(fn, b):
    """constants (None: default) of the labels a block starts with"""
    n = fn.nodes.get(b.lb) if b.lb is not None else None
    out = []
    while n is not None and n.k in ("Case", "Default"):
        out.append(n.c[0].cv if n.k == "Case" else None)
        n = n.c[-1]
    # labels stacked on one statement: the block only knows the innermost
    n = fn.nodes.get(b.lb) if b.lb is not None else None
    while n is not None and n.p is not None and n.p.k in ("Case", "Default"):
        n = n.p
        out.append(n.c[0].cv if n.k == "Case" else None)
    return out


class Shared(Inter):
    """which functions matter and which elements of a block does not depend on the value looked at"""

    def __init__(self, P):
        Inter.__init__(self, P)
        k = ("c22", type(self).__name__)
        if not hasattr(P, "shared"):
            P.shared = {}
        if k not in P.shared:
            self.relevant(next(iter(P.fns.values())))
            P.shared[k] = (self._rel, self._els, self.assigned)
        self._rel, self._els, self.assigned = P.shared[k]


class Ctor(Shared):
    """does a constructor return when a member has the value x?"""

    def __init__(self, P, path, x):
        Shared.__init__(self, P)
        self.path = path
        self.x = x

    def is_event(self, n, fn):
        return is_exit(n)

    def wants(self, kind, n, fn):
        return False

    def value(self, fr, n):
        return self.x if fr.of(n) in self.path else None

    def edge(self, fr, B, i, st):
        c = fr.fn.cfg.test(B)
        if c is None:
            return st
        if B.tk == "SwitchStmt":
            v = Look(self.P, fr, self.value).val(c)
            return switch_edge(fr.fn, B, i, v, st)
        if len(B.s) != 2:
            return st
        leaf, neg = leaf_cond(c)
        if leaf is None:
            return st
        if ((i == 0) != neg) not in Look(self.P, fr, self.value).truths(leaf):
            return None
        return st

    def join(self, a, b):
        return a


def switch_edge(fn, B, i, v, st):
    if v is None or v.const is None:
        return st
    labs = [case_values(fn, fn.cfg.blocks[s]) if s is not None else [] for s in B.s]
    hit = [j for j, l in enumerate(labs) if v.const in [x for x in l if x is not None]]
    if hit:
        return st if i in hit else None
    dfl = [j for j, l in enumerate(labs) if None in l]
    j = dfl[0] if dfl else len(B.s) - 1
    return st if i == j else None


def partition(P, f):
    """elements of the domain of a size: single values (around every constant the constructor or
    a function it calls compares with) and the ranges between them"""
    cs, fs = set(), [f]
    for _ in range(2):
        fs += [g for h in fs for n in h.walk() if n.k == "Call" for g in [P.callee(n)] if g is not None and g not in fs and not g.recn]
    for h in fs:
        for n in h.walk():
            if n.k in ("Bin", "Case"):
                cs |= {x.cv for x in n.kids() if x.cv is not None and 0 <= x.cv <= FULL}
    pts = set(range(0, 12)) | {FULL}
    for k in cs | {1 << i for i in range(4, 10)} | {1 << 31}:
        pts |= {max(k - 1, 0), k, min(k + 1, FULL)}
    pts = sorted(pts)
    out = []
    last = -1
    for p in pts:
        if p - last > 1:
            out.append(V(last + 1, p - 1, 32))
        out.append(K(p, 32))
        last = p
    return out


class Dispatch(Shared):
    """facts: (started, sizes evaluated, amount added to each counter) for one size v"""

    def __init__(self, P, sizefns, v, stepvars):
        self.sizefns = sizefns
        Shared.__init__(self, P)
        self.v = v
        self.paths_of_size = set()
        self.stepvars = stepvars
        self.done = {}
        self.unclear = False

    def is_size(self, n):
        return n.k == "Call" and n.callee in self.sizefns

    def evals(self, n):
        if n.k != "Call":
            return None
        if n.d.get("recn") == "BlackBoxBase" or method_of(n)[0].startswith("BlackBoxBase"):
            if n.name == "eval" or n.op == "()":
                return lanes(" ".join(n.pt) or " ".join(a.t for a in n.args()))
        return None

    def is_event(self, n, fn):
        return self.is_size(n) or self.evals(n) is not None or n.k == "Call" and method_of(n)[0] == "ThreadPool" and n.name in SUBMIT

    def wants(self, kind, n, fn):
        if kind == "V":
            return True
        return kind == "S" and (n.k in ("Decl", "Assign", "Un") or n.k == "Call" and self.is_event(n, fn))

    def skip(self, g):
        return g.recn == "ThreadPool" or g.u in self.sizefns or g.recn == "BlackBoxBase" or g.q == "firefly::compute_job_number"

    def join(self, a, b):
        return a | b

    def value(self, fr, n):
        if self.is_size(n):
            return K(self.v)
        if n.k in ("Ref", "Member"):
            p = fr.of(n)
            if p in self.paths_of_size:
                return K(self.v)
        return None

    def edge(self, fr, B, i, st):
        c = fr.fn.cfg.test(B)
        if c is None:
            return st
        if B.tk == "SwitchStmt":
            return switch_edge(fr.fn, B, i, Look(self.P, fr, self.value).val(c), st)
        if len(B.s) != 2:
            return st
        leaf, neg = leaf_cond(c)
        if leaf is None:
            return st
        if ((i == 0) != neg) not in Look(self.P, fr, self.value).truths(leaf):
            return None
        return st

    def finish(self, fr, st, n):
        for on, ev, add in st:
            if on:
                self.done.setdefault((ev, add), n.loc() if n is not None else fr.fn.loc())

    def event(self, fr, kind, n, st):
        if kind == "V":
            v = fr.paths.decls.get(n)
            if v is not None:
                self.decl(fr, v)
            return st
        if kind == "exit":
            return st
        if n.k == "Decl":
            for v in n.vars:
                self.decl(fr, v)
            return st
        if n.k == "Call":
            if self.is_size(n):
                self.finish(fr, st, n)
                return frozenset([(True, (), ())])
            e = self.evals(n)
            if e is not None:
                return frozenset((on, (ev + (e,))[:4] if on else ev, add) for on, ev, add in st)
            if method_of(n)[0] == "ThreadPool" and n.name in SUBMIT:
                return self.task(fr, n, st)
        if n.k in ("Assign", "Un") and (n.k == "Assign" or n.op in ("++", "--")):
            t = strip(n.c[0])
            if t is not None and t.k in ("Ref", "Member"):
                p = fr.of(t)
                if p in self.paths_of_size:
                    r = Look(self.P, fr, self.value).val(n.c[1]) if n.k == "Assign" and n.op == "=" else None
                    if r is None or r.const != self.v:
                        self.unclear = True
                if p in self.stepvars:
                    d = None
                    if n.k == "Un":
                        d = 1 if n.op == "++" else -1
                    elif n.op in ("+=", "-="):
                        r = Look(self.P, fr, self.value).val(n.c[1])
                        d = None if r is None or r.const is None else r.const if n.op == "+=" else -r.const
                        if d is None and not any(x.k == "Call" or x.k == "Ref" and fr.of(x)[0] != "S" for x in n.c[1].walk()):
                            d = "by " + txt(n.c[1])
                    elif n.op == "=":
                        r = strip(n.c[1])
                        if r is not None and r.k == "Bin" and r.op in ("+", "-"):
                            a, b = strip(r.c[0]), strip(r.c[1])
                            if b is not None and fr.of(b) == p and r.op == "+":
                                a, b = b, a
                            if a is not None and fr.of(a) == p:
                                x = Look(self.P, fr, self.value).val(b)
                                d = None if x is None or x.const is None else x.const if r.op == "+" else -x.const
                    return frozenset((on, ev, self.plus(add, self.stepvars[p], d) if on else add) for on, ev, add in st)
        return st

    @staticmethod
    def plus(add, name, d):
        m = dict(add)
        old = m.get(name, 0)
        m[name] = None if d is None or old is None else d if isinstance(d, str) else old if isinstance(old, str) else old + d
        if isinstance(m[name], int) and abs(m[name]) > 1 << 12:
            m[name] = None
        return tuple(sorted(m.items(), key=repr))

    def decl(self, fr, v):
        i = strip(v.init) if v.init is not None else None
        while i is not None and i.k in ("Cast", "Construct", "InitList") and len(i.args()) == 1:
            i = strip(i.args()[0])
        if i is not None and self.is_size(i):
            self.paths_of_size.add(("L", v.d, v.n))

    def task(self, fr, n, st):
        for a in n.args():
            g = self.lambda_of(fr, a)
            if g is not None and g.cfg is not None:
                sub = Frame(g, FPaths(g, {}, fr.paths), fr, n)
                r = self.run_frame(sub, st)
                if r is not None:
                    return r
        return st

    def lambda_of(self, fr, n):
        n = strip(n)
        for _ in range(6):
            if n is None:
                return None
            if n.k == "Lambda":
                f = self.P.lams.get(n.d["lam"])
                return f[0] if f else None
            if n.k == "Ref":
                v = fr.paths.decls.get(n.d["d"])
                n = strip(v.init) if v is not None and v.init is not None else None
            elif n.k in ("Construct", "Cast", "InitList") and n.args():
                n = strip(n.args()[0])
            elif n.k == "Call" and n.name in ("move", "forward", "bind", "ref") and n.args():
                n = strip(n.args()[0])
            else:
                return None
        return None


def mentions(fr_paths, n):
    """paths of plain variables and members in an expression"""
    out = {}
    for x in n.walk():
        if x.k == "Ref" and x.d.get("dk") not in ("func", "enum"):
            p = fr_paths.of(x)
            if p[0] == "L":
                out[p] = x
    return out


def trip(n):
    """number of rounds of a counting for-loop, and its counter"""
    init, cond, inc = n.c[0], strip(n.c[1]) if n.c[1] is not None else None, strip(n.c[2]) if n.c[2] is not None else None
    if init is None or init.k != "Decl" or len(init.vars) != 1 or cond is None or inc is None or cond.k != "Bin":
        return None, None
    v = init.vars[0]
    a, b = strip(cond.c[0]), strip(cond.c[1])
    op = cond.op
    if b is not None and b.k == "Ref" and b.d["d"] == v.d:
        a, b = b, a
        op = SWAP.get(op, op)
    if a is None or a.k != "Ref" or a.d["d"] != v.d or b is None:
        return None, v
    s = strip(v.init) if v.init is not None else None
    while s is not None and s.cv is None and s.k in ("Cast", "InitList", "Construct") and len(s.args()) == 1:
        s = strip(s.args()[0])
    if s is None or s.cv is None or b.cv is None:
        return None, v
    step = 1 if (inc.k == "Un" and inc.op == "++") else -1 if (inc.k == "Un" and inc.op == "--") else None
    if step is None:
        return None, v
    if step == 1 and op in ("!=", "<"):
        return b.cv - s.cv, v
    if step == 1 and op == "<=":
        return b.cv - s.cv + 1, v
    if step == -1 and op in ("!=", ">"):
        return s.cv - b.cv, v
    if step == -1 and op == ">=":
        return s.cv - b.cv + 1, v
    return None, v


def primary(f):
    x = f
    while x.lam and x.parent_fn is not None:
        x = x.parent_fn
    return "<" not in x.q or PRIMARY in x.q


def run(ctx):
    cfgs = ("default", "mpi")
    progs = load(cfgs)
    ctx.rule("refused", "a maximal bunch size the dispatch does not support ends the constructor with an error")
    ctx.rule("size", "for every accepted maximum, all queue lengths and thread numbers give a size of at least one, no more than is queued, without dividing by zero")
    ctx.rule("dispatch", "every size that can be chosen reaches exactly one evaluation of exactly that many points")
    ctx.rule("taken", "an evaluation of N points takes N queued points, in N lanes")
    ctx.rule("advance", "what is left to start shrinks by the size that was started")
    seen = set()
    for cfg in cfgs:
        one(ctx, progs[cfg], cfg, seen)
    ctx.need("dispatch", ctx.n("dispatch"), "dispatch sites")
    ctx.need("refused", ctx.n("refused"), "constructors")
    ctx.need("taken", ctx.n("taken"), "queue accesses")


def accepted(P, cls, field):
    """values of an integer member for which some constructor of the class returns: (parts, constructors)"""
    key = ("accepted", cls, field)
    if not hasattr(P, "shared"):
        P.shared = {}
    if key in P.shared:
        return P.shared[key]
    ctors = []
    for f in P.rec_fns(cls):
        if f.kind != "ctor" or f.lam or not primary(f) or f.raw.get("body") is None or f.flag("implicit") or f.cfg is None:
            continue
        init = next((x for x in f.inits if x[1] == field), None)
        paths = {("this", field)}
        src = None
        if init is not None and init[3] is not None:
            e = strip(init[3])
            while e is not None and e.k in ("InitList", "Cast", "Construct") and len(e.args()) == 1:
                e = strip(e.args()[0])
            if e is not None and e.k == "Ref" and any(p.d == e.d["d"] for p in f.params):
                src = e
                paths.add(Paths(f).of(e))
            elif e is not None and e.cv is not None:
                ctors.append((f, [K(e.cv)]))
                continue
            else:
                src = e
        acc = []
        for x in partition(P, f):
            if Ctor(P, paths, x).run(f, True) is not None:
                acc.append(x)
        ctors.append((f, acc))
    P.shared[key] = ctors
    return ctors


def one(ctx, P, cfg, seen):
    sf = size_fns(P)
    base = [f for f in P.fn(SIZEFN) if f.raw.get("body") is not None][0]
    sites = []
    for f in P.fns.values():
        if f.raw.get("body") is None or f.q == "firefly::compute_job_number" or f.u in sf or not primary(f):
            continue
        for n in f.walk():
            if n.k == "Call" and n.callee in sf:
                sites.append((f, n))
    ctx.need("dispatch", sites, "callers of %s" % SIZEFN)
    done_recs = set()
    for f, n in sites:
        cls = f.recn or (f.parent_fn.recn if f.parent_fn else "")
        if (cls, f.n) in seen and cfg != "mpi":
            continue
        # values the arguments can have
        pth = Paths(f)
        args = n.args()
        doms = []
        maxi = None
        for i, a in enumerate(args):
            p = pth.of(a)
            if len(p) == 2 and p[0] == "this":
                ct = accepted(P, cls, p[1])
                fin = [v for _, acc in ct for v in acc]
                vals = sorted({v.const for v in fin if v.const is not None})
                rng = any(v.const is None for v in fin)
                doms.append(("field", p[1], ct, vals, rng))
            else:
                doms.append(("any", txt(a)[:40]))
        # the maximal size is the member some of whose values are refused and that is not a mere lower bound
        fields = [i for i, d in enumerate(doms) if d[0] == "field"]
        if len(args) == 1 + len(base.params) - 1 and len(base.params) == 3 and doms[2][0] == "field":
            maxi = 2
        else:
            fin = [i for i in fields if not doms[i][4]]
            maxi = fin[0] if fin else fields[-1] if fields else None
        if maxi is None or len(args) != len(base.params):
            ctx.notes.append("%s: arguments of the size computation in %s not understood" % (cfg, f.q))
            continue
        _, fld, ct, vals, rng = doms[maxi]
        thr = [i for i in fields if i != maxi]
        sizes, bad_le, zero, lens = {}, [], [], {}
        maxes = [v for v in vals if v <= 1 << 16] or [1]
        if rng:
            maxes = [v for v in maxes if v <= 300]
        und = None
        for m in maxes:
            b = Bits(P)
            ps = base.params
            env = {}
            for i, pv in enumerate(ps):
                if i == maxi:
                    env[pv.d] = K(m)
                elif i in thr:
                    vs, r = doms[i][3], doms[i][4]
                    lo = min([v for v in vs] or [0])
                    env[pv.d] = V(lo, FULL)
                else:
                    env[pv.d] = V(1, FULL)
            try:
                res = b.run(base, env)
            except (Undecided, AttributeError, IndexError, TypeError) as e:
                und = str(e)
                continue
            q = [pv.d for i, pv in enumerate(ps) if i != maxi and i not in thr][0]
            for v, e in res:
                if v is None or v.const is None:
                    und = "a result is only known to lie in %r" % (v,)
                    continue
                sizes.setdefault(v.const, m)
                if v.const > e.orig[q].lo:
                    bad_le.append((v.const, m, e.orig[q]))
            if b.zero_div:
                zero.append((m, b.zero_div[0][0]))
        label = "%s::%s" % (cls, f.n)
        if und:
            ctx.notes.append("%s: size computation not decided for every argument (%s)" % (cfg, und))
        if not rng:
            ctx.check(not zero, "size", "%s:division" % label, base.loc(), "the size computation divides by zero when the number of threads is 0 (accepted by a constructor of %s)" % cls, what="no division by zero (%s)" % label)
            ctx.check(0 not in sizes, "size", "%s:positive" % label, base.loc(), "the size computation can give 0 (maximum %s): the queued points are never evaluated" % sizes.get(0), what="at least 1 (%s)" % label)
            if bad_le:
                # an interval may be too coarse to show it; look at single queue lengths
                w = witness(P, base, maxi, thr, maxes, doms)
                if w is not None:
                    ctx.bad("size", "%s:queue" % label, base.loc(), "a queue of %d points with %d thread(s) and maximum %d gives the size %d" % w)
                else:
                    ctx.notes.append("%s: size at most the queue length not decided" % label)
            else:
                ctx.ok("size", "at most the queue length (%s): %s" % (label, sorted(sizes)))
        # ---- dispatch
        handled = {}
        stepvars = {p: x.name for p, x in mentions(pth, args[[i for i in range(len(args)) if i != maxi and i not in thr][0]]).items() if changed_in_loop(f, p, n)}
        for v in sorted(sizes):
            if v == 0:
                continue
            d = Dispatch(P, sf, v, stepvars)
            r = d.run(f, frozenset([(False, (), ())]))
            if r:
                d.finish(Frame(f, pth), r, None)
            if d.unclear:
                ctx.notes.append("%s: the size is changed before the dispatch" % label)
                continue
            evs = {ev for ev, _ in d.done}
            okd = evs == {(v,)}
            msg = "nothing evaluates the points" if () in evs else "evaluated as %s" % sorted(evs)
            handled[v] = okd
            if rng and not okd:
                continue
            ctx.check(okd, "dispatch", "%s:%d" % (label, v), n.loc(), "size %d (possible with maximum %d): %s" % (v, sizes[v], msg), what="%s: size %d" % (label, v))
            for nm in sorted(set(stepvars.values())):
                got = {dict(add).get(nm, 0) for _, add in d.done}
                if None in got:
                    ctx.notes.append("%s: advance of %s not decided" % (label, nm))
                    continue
                ctx.check(got == {v} or got == {-v}, "advance", "%s:%s:%d" % (label, nm, v), n.loc(), "%s changes by %s after %d points were started" % (nm, sorted(got, key=str), v), what="%s: %s += %d" % (label, nm, v))
        # ---- refusal
        for g, acc in ct:
            wrong = sorted(x.const if x.const is not None else x.lo for x in acc if x.const is None or x.const == 0 or not handled.get(x.const, x.const in handled))
            params = ",".join(p.n for p in g.params)
            ctx.check(not [w for w in wrong if w not in handled or not handled[w]], "refused", "%s(%d parameters):%s" % (cls, len(g.params), fld), g.loc(),
                      "a maximal bunch size of %s is accepted but no evaluation of that size exists" % ", ".join(map(str, wrong[:8])), what="%s(%s) accepts %s" % (cls, params, [x.const for x in acc]))
        seen.add((cls, f.n))
    taken(ctx, P, cfg)


def changed_in_loop(f, p, site):
    """a variable that is changed in a loop around the size computation"""
    loops = [a for a in site.ancestors() if a.k in ("While", "For", "Do", "ForRange")]
    if not loops:
        return False
    pth = Paths(f)
    for x in loops[0].walk():
        if x.k in ("Assign",) or x.k == "Un" and x.op in ("++", "--"):
            if pth.of(x.c[0]) == p:
                return True
    return False


def witness(P, base, maxi, thr, maxes, doms):
    ps = base.params
    for m in maxes:
        for t in list(range(1, 10)) + [16, 17]:
            for q in list(range(1, 70)) + [127, 128, 129, 255, 256, 257, 1000]:
                env = {pv.d: K(m) if i == maxi else K(t) if i in thr else K(q) for i, pv in enumerate(ps)}
                try:
                    res = Bits(P).run(base, env)
                except (Undecided, AttributeError, IndexError, TypeError):
                    return None
                for v, _ in res:
                    if v is not None and v.const is not None and (v.const > q or v.const == 0):
                        return (q, t, m, v.const)
    return None


def taken(ctx, P, cfg):
    """loops over lanes and over queue elements in functions that evaluate N points"""
    per = {}
    for f in P.fns.values():
        if f.raw.get("body") is None or f.recn not in ("Reconstructor", "MPIWorker") or not primary(f):
            continue
        ev = [n for n in f.walk() if n.k == "Call" and n.name == "eval" and n.obj is not None and "BlackBoxBase" in n.obj.t]
        N = {lanes(" ".join(n.pt) or "") for n in ev}
        N = next(iter(N)) if len(N) == 1 else None
        tn = f.raw.get("targs") or []
        if N is None and len(tn) == 1 and re.fullmatch(r"\d+[UL]*", tn[0]):
            N = int(tn[0].rstrip("UL"))
        if N is None:
            continue
        # queue elements
        pops = [n for n in f.walk() if n.k == "Call" and n.name in ("pop_front", "pop") and n.obj is not None and n.obj.t and "FFInt" in n.obj.t]
        cnt, unk = 0, False
        for n in pops:
            c = 1
            for a in n.ancestors():
                if a.k == "For":
                    t, _ = trip(a)
                    if t is None:
                        unk = True
                    else:
                        c *= t
                elif a.k in ("While", "Do", "ForRange", "If", "Switch", "Cond"):
                    unk = True
            cnt += c
        key = "%s::%s<%d>" % (f.recn, f.n, N)
        if pops and not unk:
            ctx.check(cnt == N, "taken", "%s:queue" % key, pops[0].loc(), "takes %d points from the queue to evaluate %d" % (cnt, N), what="%s takes %d" % (key, cnt))
        # lanes
        for lp in f.walk():
            if lp.k != "For":
                continue
            init = lp.c[0]
            if init is None or init.k != "Decl" or len(init.vars) != 1:
                continue
            d = init.vars[0].d
            uses = []
            for x in lp.walk():
                if x.k == "Call" and x.op == "[]" and len(x.args()) == 2:
                    o, i = x.args()
                    i = strip(i)
                    if i is not None and i.k == "Ref" and i.d["d"] == d:
                        t = unconst(o.t).replace("&", "").strip()
                        m = re.fullmatch(r"(?:firefly::)?FFIntVec<(\d+)[UL]*>", t)
                        if m:
                            uses.append((x, int(m.group(1))))
            if not uses:
                continue
            t, v = trip(lp)
            if t is None:
                continue
            for x, M in uses[:1]:
                ctx.check(t == M, "taken", "%s:lanes:%s" % (key, txt(x)[:40]), x.loc(), "a loop over the lanes of a pack of %d has %d rounds" % (M, t), what="%s: %d lanes" % (key, t))
