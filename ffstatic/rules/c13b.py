"""C13, continued: buffers, requests, layout of the packages, field numbers."""
import re
from ..core import *
from ..core import strip
from ..inter import Inter, Frame, FPaths
from .c12 import primary

CT = {"uint64_t": ("unsigned long", "unsigned long long", "uint64_t", "std::uint64_t"), "uint32_t": ("unsigned int", "uint32_t", "std::uint32_t"),
      "int": ("int",), "char": ("char",), "double": ("double",), "unsigned_long": ("unsigned long",), "unsigned": ("unsigned int",), "int64_t": ("long", "long long"), "int32_t": ("int",), "float": ("float",)}
BUF = {"MPI_Send": (0, 1, 2), "MPI_Ssend": (0, 1, 2), "MPI_Isend": (0, 1, 2), "MPI_Issend": (0, 1, 2), "MPI_Recv": (0, 1, 2), "MPI_Bcast": (0, 1, 2)}


def short(f):
    return (f.recn.split("::")[-1] + "::" if f.recn else "") + f.n


def scope(P):
    for f in P.fns.values():
        if f.raw.get("body") is not None and primary(f) and f.recn and f.recn.split("::")[-1] in ("Reconstructor", "MPIWorker"):
            yield f


def tgt(e):
    e = strip(e)
    if e is not None and e.k == "Un" and e.op == "&":
        return strip(e.c[0])
    return e


def dname(e):
    x = tgt(e)
    return x.name if x is not None and x.name else txt(e)


def pointee(e):
    t = e.t.replace("const ", "").strip()
    m = re.match(r"^(.*?)\s*\(\*\)\s*\[(\d+)\]$", t)
    if m:
        return m.group(1).strip(), int(m.group(2))
    m = re.match(r"^(.*?)\s*\[(\d+)\]$", t)
    if m:
        return m.group(1).strip(), int(m.group(2))
    if t.endswith("*"):
        return t[:-1].strip(), None
    return None, None


def buffers(ctx, P):
    n_ = 0
    for f in scope(P):
        for n in f.walk():
            if n.k != "Call" or n.name not in BUF:
                continue
            b, c, d = (n.args()[i] for i in BUF[n.name])
            dn = dname(d)
            e = strip(b)
            if e.cv is not None or e.k in ("Nullptr", "Null"):
                if strip(c).cv == 0:
                    ctx.ok("buffer", "%s: empty message" % n.loc())
                else:
                    ctx.bad("buffer", "%s.null" % short(f), n.loc(), "%s sends %s elements from a null pointer" % (short(f), txt(c)))
                n_ += 1
                continue
            m = re.match(r"^ompi_mpi_(.*)$", dn)
            if not m or m.group(1) not in CT:
                ctx.notes.append("buffer: datatype %s of %s not known" % (dn, n.loc()))
                continue
            n_ += 1
            pt, k = pointee(e)
            if pt is None or "void" in pt:
                ctx.notes.append("buffer: type of the buffer %s (%s) not known" % (txt(b), n.loc()))
                continue
            if pt not in CT[m.group(1)]:
                ctx.bad("buffer", "%s.type" % short(f), n.loc(), "%s passes a buffer of %s as %s" % (short(f), pt, dn))
                continue
            x = tgt(b)
            cnt = strip(c).cv
            if k is not None and cnt is not None and cnt > k:
                ctx.bad("buffer", "%s.count" % short(f), n.loc(), "%s transfers %d elements of an array of %d" % (short(f), cnt, k))
                continue
            if e.k == "Un" and e.op == "&" and x.k in ("Ref", "Member") and k is None and "[" not in x.t and cnt is not None and cnt != 1:
                ctx.bad("buffer", "%s.count" % short(f), n.loc(), "%s transfers %d elements of the single object %s" % (short(f), cnt, txt(x)))
                continue
            ctx.ok("buffer", "%s: %s x %s" % (n.loc(), txt(c), pt))
    ctx.need("buffer", n_, "calls that pass a buffer")


# ---------------------------------------------------------------- requests
class Req(Inter):
    """non-blocking sends that are not completed: (request, buffer, node)"""

    def __init__(self, P):
        Inter.__init__(self, P)
        self.bad = {}
        self.sites = {}
        self.done = set()
        self.arrays = {}

    def is_event(self, n, fn):
        return n.k == "Call" and n.name in ("MPI_Isend", "MPI_Issend", "MPI_Irecv", "MPI_Wait", "MPI_Waitall")

    def wants(self, kind, n, fn):
        return kind == "S" and n.k in ("Call", "Assign", "Un", "Decl", "Delete", "Construct")

    def skip(self, g):
        return g.recn and g.recn.split("::")[-1] not in ("Reconstructor", "MPIWorker")

    def root(self, fr, e):
        x = tgt(e)
        if x is not None and (x.k == "Sub" or x.k == "Call" and x.op == "[]"):
            a = (x.args() if x.k == "Call" else x.c)
            return fr.of(a[0]), a[1]
        if x is not None and x.k == "Bin" and x.op == "+":
            return fr.of(x.c[0]), x.c[1]
        if x is not None and x.k == "Call" and x.obj is not None and x.name in ("data", "front"):
            return fr.of(x.obj), None
        return (fr.of(x), None) if x is not None else (("?",), None)

    def fail(self, key, n, msg):
        self.bad.setdefault(key, (n, msg))

    def owner(self, fn, p):
        if p[0] != "L":
            return None
        for n in fn.walk():
            if n.k == "Decl" and any(v.d == p[1] for v in n.vars):
                for a in n.ancestors():
                    if a.k in ("Compound", "For", "While", "ForRange"):
                        return a
        return None

    def heap(self, fn, p):
        """is the local a pointer to memory of its own?"""
        for n in fn.walk():
            if n.k == "Decl":
                for v in n.vars:
                    if v.d == p[1]:
                        return v.t.endswith("*")
        return False

    def event(self, fr, kind, n, st):
        if kind != "S" and kind != "call" and kind != "exit":
            return st
        out = set()
        w = None
        if st:
            anc = {n.id} | {a.id for a in n.ancestors()}
            w = self.writes(fr, n)
            for rq, bf, i in st:
                node, f0 = self.sites[i]
                keep = True
                for p, what in ((rq, "request"), (bf, "buffer")):
                    own = self.owner(fr.fn, p)
                    if own is not None and own.id not in anc and not self.heap(fr.fn, p) and f0 == fr.fn.u:
                        self.fail((i, "scope", what), node, "the %s %s of the send ceases to exist before the send is completed (at %s)" % (what, p[-1], n.loc()))
                        keep = False
                        break
                    if n.k == "Decl" and any(("L", v.d) == p[:2] for v in n.vars) and not self.heap(fr.fn, p):
                        self.fail((i, "again", what), node, "the %s %s of the send begins a new life before the send is completed (at %s)" % (what, p[-1], n.loc()))
                        keep = False
                        break
                    if n.k == "Delete" and fr.of(n.c[0]) == p:
                        self.fail((i, "delete", what), node, "the %s %s of the send is deleted at %s before the send is completed" % (what, p[-1], n.loc()))
                        keep = False
                        break
                if keep and w is not None and w[:len(bf)] == bf and not (n.k == "Call" and n.name in ("MPI_Isend", "MPI_Issend")):
                    self.fail((i, "write", "buffer"), node, "the buffer %s of the send is changed at %s before the send is completed" % (bf[-1], n.loc()))
                if keep:
                    out.add((rq, bf, i))
        if n.k == "Call" and n.name in ("MPI_Isend", "MPI_Issend") and len(n.args()) >= 7:
            rq, ix = self.root(fr, n.args()[6])
            bf, _ = self.root(fr, n.args()[0])
            self.sites[n.id, fr.fn.u] = (n, fr.fn.u)
            k = (n.id, fr.fn.u)
            if ix is None or ix.cv is not None:
                for a, b, i in list(out):
                    if a == rq and (ix is None or self.sites[i][0] is n):
                        self.fail((i, "reuse", "request"), self.sites[i][0], "the request %s is used again at %s before the send is completed" % (rq[-1], n.loc()))
                        out.discard((a, b, i))
            out.add((rq, bf, k))
        elif n.k == "Call" and n.name in ("MPI_Wait", "MPI_Waitall"):
            rq, _ = self.root(fr, n.args()[0 if n.name == "MPI_Wait" else 1])
            for x in list(out):
                if x[0] == rq:
                    out.discard(x)
                    self.done.add(x[2])
                    if n.name == "MPI_Waitall":
                        self.arrays.setdefault(x[2], []).append((n, fr.fn))
        return frozenset(out)

    def writes(self, fr, n):
        if n.k == "Assign":
            return fr.of(n.c[0])
        if n.k == "Un" and n.op in ("++", "--"):
            return fr.of(n.c[0])
        if n.k == "Call":
            if n.op in ("=", "+=", "++", "--") and n.args():
                return fr.of(n.args()[0])
            if n.name in ("MPI_Recv",) or n.name == "MPI_Bcast":
                return self.root(fr, n.args()[0])[0]
            if n.obj is not None and n.name in ("clear", "push_back", "emplace_back", "resize", "reserve", "insert", "pop_back", "assign", "swap", "erase", "shrink_to_fit"):
                return fr.of(n.obj)
        return None

    def leave(self, fr, call, g, before, after):
        for rq, bf, i in after:
            if (rq, bf, i) not in before and self.sites[i][1] == g.u:
                for p, what in ((rq, "request"), (bf, "buffer")):
                    if p[0] == "L" and any(v.d == p[1] for n in g.walk() if n.k == "Decl" for v in n.vars):
                        self.fail((i, "end", what), self.sites[i][0], "the %s %s of the send ends with %s before the send is completed" % (what, p[-1], short(g)))
        return after


def lin(e):
    e = strip(e)
    if e is None:
        return None
    if e.cv is not None:
        return (None, e.cv)
    if e.k in ("Ref", "Member"):
        return (e.name, 0)
    if e.k == "Bin" and e.op in ("+", "-"):
        a, b = lin(e.c[0]), lin(e.c[1])
        if a is not None and b is not None and b[0] is None:
            return (a[0], a[1] + (b[1] if e.op == "+" else -b[1]))
    return None


def requests(ctx, P):
    R = Req(P)
    roots = [f for f in scope(P) if not f.lam and any(n.k == "Call" and n.name in ("MPI_Isend", "MPI_Issend") for n in f.walk())]
    callers = P.callers()
    tops = set()
    for f in roots:
        st, seen = [f], set()
        while st:
            g = st.pop()
            if g.u in seen:
                continue
            seen.add(g.u)
            # a helper that gets the request handed in is judged at its callers
            if any("MPI_Request" in pv.t or "ompi_request" in pv.t for pv in g.params):
                st += [h for h, _ in callers.get(g.u, ()) if primary(h)]
            else:
                tops.add(g.u)
    for u in sorted(tops):
        f = P.fns[u]
        ex = R.run(f, frozenset())
        for rq, bf, i in ex or ():
            node, f0 = R.sites[i]
            R.fail((i, "end", "request"), node, "%s ends before the send is completed" % short(f))
    n_ = 0
    failed = {k[0] for k in R.bad}
    for k, (n, msg) in sorted(R.bad.items(), key=lambda x: x[1][0].loc()):
        ctx.bad("request", "%s.%s" % (short(n.fn), k[1]), n.loc(), "%s: %s" % (short(n.fn), msg))
    for i, (n, fu) in R.sites.items():
        n_ += 1
        if i not in R.done and i not in failed:
            ctx.bad("request", "%s.open" % short(n.fn), n.loc(), "the non-blocking send in %s is never completed" % short(n.fn))
        elif i not in failed:
            ctx.ok("request", "%s in %s" % (n.loc(), short(n.fn)))
    # arrays of requests: allocated, filled and waited for in the same number
    for i, ws in R.arrays.items():
        n, fu = R.sites[i]
        fp = FPaths(n.fn, {})
        p = R.root(Frame(n.fn, fp), n.args()[6])[0]
        sizes = []
        for x in n.fn.walk():
            if x.k == "New" and x.d.get("at") is not None and ("Request" in n.fn.types[x.d["at"]] or "request" in n.fn.types[x.d["at"]]) and x.c:
                sizes.append(lin(x.c[0]))
        for wn, wf in ws:
            l = lin(wn.args()[0])
            for s in sizes:
                if l is not None and s is not None and l[0] == s[0] and l[1] != s[1]:
                    ctx.bad("request", "%s.number" % short(n.fn), wn.loc(), "%s waits for %s of the %s%+d requests" % (short(n.fn), txt(wn.args()[0]), s[0], s[1]))
            if l is not None and l[0] == "world_size" and l[1] != -1:
                ctx.bad("request", "%s.number" % short(n.fn), wn.loc(), "%s waits for %s sends, not for one per worker" % (short(n.fn), txt(wn.args()[0])))
    ctx.need("request", n_, "non-blocking sends")


# ---------------------------------------------------------------- layout
class Poly(dict):
    """multivariate polynomial: sorted tuple of atoms -> coefficient"""

    def add(self, o, k=1):
        r = Poly(self)
        for m, c in o.items():
            r[m] = r.get(m, 0) + k * c
            if not r[m]:
                del r[m]
        return r

    def mul(self, o):
        r = Poly()
        for m, c in self.items():
            for q, d in o.items():
                x = tuple(sorted(m + q))
                r[x] = r.get(x, 0) + c * d
                if not r[x]:
                    del r[x]
        return r

    def sub(self, atom, p):
        r = Poly()
        for m, c in self.items():
            t = Poly({(): c})
            for a in m:
                t = t.mul(p if a == atom else Poly({(a,): 1}))
            r = r.add(t)
        return r

    def atoms(self):
        return {a for m in self for a in m}


def const(k):
    return Poly({(): k} if k else {})


def poly(fp, e, depth=0):
    """the polynomial an integer expression denotes (None: not one)"""
    e = strip(e)
    if e is None or depth > 15:
        return None
    if e.cv is not None:
        return const(e.cv)
    if e.k in ("Ref", "Member"):
        p = fp.of(e)
        if p[0] == "L":
            v = fp.decls.get(p[1])
            if v is not None and v.init is not None and stable(fp.fn, v.d) and ("const" in v.t or simple(v.init)):
                q = poly(fp, v.init, depth + 1)
                if q is not None:
                    return q
            return Poly({("%s#%s" % (p[2], p[1]),): 1})
        if p[0] == "this" and len(p) == 2:
            return Poly({(p[1],): 1})
        return Poly({(".".join(map(str, p)),): 1})
    if e.k == "Bin" and e.op in ("+", "-", "*"):
        a, b = poly(fp, e.c[0], depth + 1), poly(fp, e.c[1], depth + 1)
        if a is None or b is None:
            return None
        return a.add(b) if e.op == "+" else a.add(b, -1) if e.op == "-" else a.mul(b)
    if e.k == "Call" and e.name == "size" and e.obj is not None:
        return Poly({("size(%s)" % ".".join(map(str, fp.of(e.obj))),): 1})
    return None


def simple(e):
    e = strip(e)
    return e is not None and (e.cv is not None or e.k in ("Ref", "Member", "Bin") or e.k == "Call" and e.name == "size")


def stable(f, d):
    """is a local never changed after its declaration?"""
    for n in f.walk():
        t = None
        if n.k == "Assign":
            t = strip(n.c[0])
        elif n.k == "Un" and n.op in ("++", "--", "&"):
            t = strip(n.c[0])
        elif n.k == "Call" and n.op in ("++", "--", "+=", "=") and n.args():
            t = strip(n.args()[0])
        if t is not None and t.k == "Ref" and t.d["d"] == d:
            return False
    return True


def loop_of(fp, n):
    """a counting loop: (atom, lower, upper bound (exclusive), body)"""
    if n.k != "For" or len(n.c) < 4:
        return None
    init, cond, inc, body = n.c[:4]
    if init is None or cond is None or body is None or init.k != "Decl" or len(init.vars) != 1 or init.vars[0].init is None:
        return None
    v = init.vars[0]
    atom = "%s#%s" % (v.n, v.d)
    c = strip(cond)
    if c.k != "Bin" or c.op not in ("!=", "<", "<="):
        return None
    if strip(c.c[0]).k != "Ref" or strip(c.c[0]).d["d"] != v.d:
        return None
    lo, hi = poly(fp, v.init), poly(fp, c.c[1])
    if lo is None or hi is None:
        return None
    if c.op == "<=":
        hi = hi.add(const(1))
    i = strip(inc)
    if i is None or not (i.k == "Un" and i.op == "++"):
        return None
    return atom, lo, hi, body


def pushes(fp, n, vec):
    """number of elements a statement appends to a container, as a polynomial; None: not known.
    Paths that start the iteration over (continue) append nothing and do not count."""
    if n is None:
        return Poly()
    k = n.k
    if k == "Compound":
        t = Poly()
        for x in n.c:
            if x is None:
                continue
            p = pushes(fp, x, vec)
            if p is None:
                return None
            t = t.add(p)
        return t
    if k == "If":
        a, b = pushes(fp, n.c[1], vec), pushes(fp, n.c[2] if len(n.c) > 2 else None, vec)
        if a is None or b is None:
            return None
        for x, y, s in ((a, b, n.c[1]), (b, a, n.c[2] if len(n.c) > 2 else None)):
            if s is not None and any(z.k in ("Continue",) for z in s.walk()) and not x:
                return y
        return a if a == b else None
    if k in ("For", "ForRange", "While", "Do"):
        if not any(hits(fp, x, vec) for x in n.walk()):
            return Poly()
        l = loop_of(fp, n)
        if l is None:
            if k == "ForRange":
                body = n.c[-1]
                p = pushes(fp, body, vec)
                rng = [v for x in n.c[:-1] if x is not None and x.k == "Decl" for v in x.vars if v.n.startswith("__range")]
                if p is not None and rng and rng[0].init is not None:
                    s = size_of(fp, rng[0].init)
                    if s is not None:
                        return p.mul(s)
            return None
        atom, lo, hi, body = l
        p = pushes(fp, body, vec)
        if p is None or atom in p.atoms():
            return None
        return p.mul(hi.add(lo, -1))
    t = Poly()
    for x in n.walk():
        if hits(fp, x, vec):
            if x.name in ("emplace_back", "push_back"):
                t = t.add(const(1))
            elif x.name == "insert" and len(x.args()) == 3:
                a = strip(x.args()[1])
                while a is not None and a.k in ("Construct", "Cast") and len(a.args() or a.c) == 1:
                    a = strip((a.args() or a.c)[0])
                s = size_of(fp, a.obj) if a is not None and a.k == "Call" and a.obj is not None else None
                if s is None:
                    return None
                t = t.add(s)
            else:
                return None
    return t


def size_of(fp, e):
    p = fp.of(e)
    v = fp.decls.get(p[1]) if p[0] == "L" and len(p) == 2 or p[0] == "L" and len(p) == 3 else None
    if v is not None and v.init is not None:
        x = strip(v.init)
        if x.k == "Construct" and x.args() and not any(fp.of(y.obj)[:2] == p[:2] and y.name in ("emplace_back", "push_back", "insert", "resize", "pop_back", "erase", "clear") for y in fp.fn.walk() if y.k == "Call" and y.obj is not None):
            return poly(fp, x.args()[0])
    return Poly({("size(%s)" % ".".join(map(str, p)),): 1})


def hits(fp, x, vec):
    return x.k == "Call" and x.obj is not None and x.name in ("emplace_back", "push_back", "insert", "resize", "assign", "pop_back") and fp.of(x.obj) == vec


def show(p):
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items(), key=lambda x: (-len(x[0]), x[0])):
        s = "*".join(a.split("#")[0] for a in m)
        out.append(("%+d" % c if not m else "+" + s if c == 1 else "-" + s if c == -1 else "%+d*%s" % (c, s)))
    return "".join(out).lstrip("+")


def vec_of(fp, e):
    x = tgt(e)
    if x is not None and (x.k == "Sub" or x.k == "Call" and x.op == "[]"):
        a = x.args() if x.k == "Call" else x.c
        if strip(a[1]).cv == 0:
            return fp.of(a[0])
    if x is not None and x.k == "Call" and x.obj is not None and x.name in ("data",):
        return fp.of(x.obj)
    return None


def writers(ctx, f, fp, tags, stride):
    """packages that are filled and sent in one function"""
    k = 0
    for n in f.walk():
        if n.k != "Call" or n.name not in ("MPI_Send", "MPI_Isend", "MPI_Ssend", "MPI_Issend") or strip(n.args()[0]).cv is not None:
            continue
        v = vec_of(fp, n.args()[0])
        if v is None or v[0] != "L":
            continue
        tag = txt(n.args()[4])
        cnt = strip(n.args()[1])
        if cnt.k == "Call" and cnt.name == "size" and cnt.obj is not None and fp.of(cnt.obj) == v:
            ctx.ok("layout", "%s: the whole of %s" % (n.loc(), v[-1]))
            k += 1
            continue
        c = poly(fp, n.args()[1])
        # the statements between the declaration of the container and the call
        blk = None
        for a in n.ancestors():
            if a.k == "Compound" and any(x is not None and x.k == "Decl" and any(y.d == v[1] for y in x.vars) for x in a.c):
                blk = a
                break
        if blk is None or c is None:
            ctx.notes.append("layout: cannot tell how many elements %s of %s has" % (v[-1], n.loc()))
            continue
        tot = Poly()
        for x in blk.c:
            if x is None:
                continue
            if any(y is n for y in x.walk()):
                break
            p = pushes(fp, x, v)
            if p is None:
                tot = None
                break
            tot = tot.add(p)
        if tot is None:
            ctx.notes.append("layout: cannot count the elements of %s in %s (%s)" % (v[-1], short(f), n.loc()))
            continue
        k += 1
        if tot != c:
            ctx.bad("layout", "%s.%s.count" % (short(f), tag), n.loc(), "%s sends %s elements of %s, which has %s" % (short(f), show(c), v[-1], show(tot)))
            continue
        ctx.ok("layout", "%s: %s elements" % (n.loc(), show(c)))
        stride.setdefault(tag, []).append((f, n, v, blk))
    return k


def split(p, unit):
    """p = (unit+1) * K + r with r free of the unit: (K, r) or None"""
    N = Poly({("N",): 1})
    q = p.sub(unit, N.add(const(-1)))
    K, r = Poly(), Poly()
    for m, c in q.items():
        if "N" in m:
            x = list(m)
            x.remove("N")
            if "N" in x:
                return None
            K[tuple(x)] = c
        else:
            r[m] = c
    return K, r


def readers(ctx, P, f, fp, vec, unit, what):
    """positions at which a package is read"""
    k = 0
    loops = {}
    for n in f.walk():
        l = loop_of(fp, n)
        if l is not None:
            loops[l[0]] = (l[1], l[2])
    for n in f.walk():
        a = None
        if n.k == "Sub":
            a = n.c
        elif n.k == "Call" and n.op == "[]":
            a = n.args()
        elif n.k == "Call" and n.name == "at" and n.obj is not None and n.args():
            a = [n.obj, n.args()[0]]
        if a is None or len(a) != 2 or fp.of(a[0]) != vec:
            continue
        if any(x.k == "Call" and x.name.startswith("MPI_") for x in n.ancestors()):
            continue
        p = poly(fp, a[1])
        s = split(p, unit) if p is not None else None
        if s is None:
            ctx.notes.append("layout: position %s in %s (%s) is no polynomial" % (txt(a[1]), short(f), n.loc()))
            continue
        K, r = s
        k += 1
        # the last element of a package of results
        ats = r.atoms()
        if not K and any("amount" in x or x.startswith("size(") for x in ats) or not K and len(ats) == 1 and not (ats & set(loops)):
            if r.get((), 0) == -1:
                ctx.ok("layout", "%s: last element" % n.loc())
            else:
                ctx.bad("layout", "%s.%s.last" % (short(f), what), n.loc(), "%s reads the number of free slots at %s instead of the last element" % (short(f), txt(a[1])))
            continue
        lv = [x for x in ats if x in loops]
        if not ats:
            if r in (Poly(), const(0)):
                ctx.ok("layout", "%s: number of the probe" % n.loc())
                number(ctx, f, n, what)
            else:
                ctx.bad("layout", "%s.%s.position" % (short(f), what), n.loc(), "%s reads position %s+%s of a probe's elements outside the loop over them" % (short(f), show(r), "0"))
            continue
        if len(ats) != 1 or not lv or r.get((lv[0],), 0) != 1 or any(len(m) > 1 for m in r):
            ctx.bad("layout", "%s.%s.stride" % (short(f), what), n.loc(), "%s reads the elements of different probes at %s, which are not %s+1 apart" % (short(f), txt(a[1]), unit))
            continue
        lo, hi = loops[lv[0]]
        off = const(r.get((), 0))
        lo, hi = lo.add(off), hi.add(off)
        if lo != const(1) or hi.sub(unit, Poly({("U",): 1})) != Poly({("U",): 1, (): 1}):
            if len(hi.atoms() - {unit}) == 0:
                ctx.bad("layout", "%s.%s.range" % (short(f), what), n.loc(), "%s reads positions %s to %s of a probe's elements instead of 1 to %s" % (short(f), show(lo), show(hi.add(const(-1))), unit))
            else:
                ctx.notes.append("layout: range of %s in %s not known" % (txt(a[1]), n.loc()))
            continue
        # where the element goes
        d = dest(fp, n, lv[0])
        if d is not None and d != Poly({(lv[0],): 1}).add(off).add(const(-1)):
            ctx.bad("layout", "%s.%s.dest" % (short(f), what), n.loc(), "%s stores element %s of a probe as number %s" % (short(f), show(Poly({(lv[0],): 1}).add(off)), show(d)))
            continue
        ctx.ok("layout", "%s: element %s" % (n.loc(), show(Poly({(lv[0],): 1}).add(off))))
    return k


def dest(fp, n, atom):
    """index of the container an element is stored in, if it has the loop variable in it"""
    for a in n.ancestors():
        t = None
        if a.k == "Assign" and strip(a.c[0]) is not n:
            t = strip(a.c[0])
        elif a.k == "Call" and a.op == "=" and a.args():
            t = strip(a.args()[0])
        elif a.k == "Call" and a.obj is not None and a.name in ("emplace_back", "push_back"):
            t = strip(a.obj)
        if t is not None:
            while t is not None and (t.k == "Sub" or t.k == "Call" and t.op == "[]"):
                x = t.args() if t.k == "Call" else t.c
                p = poly(fp, x[1])
                if p is not None and atom in p.atoms():
                    return p
                t = strip(x[0])
            return None
        if a.k in ("Compound", "For"):
            return None
    return None


def number(ctx, f, n, what):
    """the element at the start of a probe is an integer, not a field element"""
    for a in n.ancestors():
        if a.k in ("Compound", "For", "Decl"):
            return
        if a.k == "Construct" and a.name == "FFInt" or a.k == "Call" and a.obj is not None and a.name in ("emplace_back", "push_back") and "FFInt" in a.obj.t:
            ctx.bad("layout", "%s.%s.number" % (short(f), what), n.loc(), "%s takes the number of a probe for a value" % short(f))
            return


def divisors(ctx, f, fp, cntvars, unit, what):
    k = 0
    for n in f.walk():
        if n.k == "Bin" and n.op in ("/", "%"):
            d = poly(fp, n.c[1])
            if d is None or unit not in d.atoms():
                continue
            k += 1
            if d != Poly({(unit,): 1, (): 1}):
                ctx.bad("layout", "%s.%s.divide" % (short(f), what), n.loc(), "%s divides a package into probes of %s elements instead of %s+1" % (short(f), show(d), unit))
            else:
                x = strip(n.c[0])
                ctx.ok("layout", "%s: packages of %s" % (n.loc(), show(d)))
    return k


def layout(ctx, P):
    wr, rd = 0, 0
    st = {}
    for f in scope(P):
        fp = FPaths(f, {})
        wr += writers(ctx, f, fp, (), st)
    for tag, xs in st.items():
        for f, n, v, blk in xs:
            order(ctx, f, FPaths(f, {}), v, blk, tag)
    for f in scope(P):
        fp = FPaths(f, {})
        cls = f.recn.split("::")[-1]
        unit = "n" if cls == "MPIWorker" else "items"
        vecs = set()
        for n in f.walk():
            if n.k == "Call" and n.name == "MPI_Recv":
                v = vec_of(fp, n.args()[0])
                if v is not None:
                    vecs.add(v)
        if cls == "MPIWorker":
            for pv in f.params:
                if "vector<unsigned long>" in pv.t or "vector<uint64_t>" in pv.t:
                    if any(g.recn == f.recn and any(vec_of(FPaths(g, {}), x.args()[0]) is not None for x in g.walk() if x.k == "Call" and x.name == "MPI_Recv") for g, _ in P.callers().get(f.u, ())):
                        vecs.add(("L", pv.d, pv.n))
        for v in vecs:
            # only packages whose elements are looked at by position
            rd += readers(ctx, P, f, fp, v, unit, "VALUES" if unit == "n" else "RESULT") if big(f, fp, v) else 0
        if vecs or any(n.k == "Call" and n.name == "MPI_Get_count" for n in f.walk()):
            divisors(ctx, f, fp, None, unit, "VALUES" if unit == "n" else "RESULT")
    ctx.need("layout", wr, "packages that are sent")
    ctx.need("layout", rd, "positions of packages that are read")
    results(ctx, P)


def big(f, fp, v):
    n_ = 0
    for n in f.walk():
        a = n.c if n.k == "Sub" else n.args() if n.k == "Call" and n.op == "[]" else None
        if a is not None and len(a) == 2 and fp.of(a[0]) == v and strip(a[1]).cv is None:
            n_ += 1
    return n_ > 0


def order(ctx, f, fp, v, blk, tag):
    """the first element of every probe is its number, the others are values"""
    loop = None
    for x in blk.c:
        if x is not None and x.k in ("For", "While", "Do", "ForRange") and any(hits(fp, y, v) for y in x.walk()):
            loop = x
            break
    if loop is None:
        return
    hs = [y for y in loop.walk() if hits(fp, y, v)]
    if not hs:
        return
    first = min(hs, key=lambda y: y.id)

    def value(e):
        return any(x.k == "Member" and x.name == "n" and x.c and "FFInt" in x.c[0].t for x in e.walk())
    inner = any(a.k in ("For", "While", "ForRange") for a in first.ancestors() if a is not loop and any(b is loop for b in a.ancestors()))
    if inner or first.name == "insert" or first.args() and value(first.args()[0]):
        ctx.bad("layout", "%s.%s.number" % (short(f), tag), first.loc(), "%s does not begin the elements of a probe with its number" % short(f))
    else:
        ctx.ok("layout", "%s: number first" % first.loc())
    rest = [y for y in hs if y is not first and y.name in ("emplace_back", "push_back")]
    for y in rest:
        if y.args() and not value(y.args()[0]) and re.match(r"^(ind|index)$", txt(y.args()[0])):
            ctx.bad("layout", "%s.%s.twice" % (short(f), tag), y.loc(), "%s puts the number of a probe among its values" % short(f))
    # coordinates in their order
    loops = {}
    for x in loop.walk():
        l = loop_of(fp, x)
        if l is not None:
            loops[l[0]] = (l[1], l[2], l[3])
    for y in rest:
        for a in y.ancestors():
            if a is loop:
                break
            l = loop_of(fp, a)
            if l is None:
                continue
            for e in y.args()[0].walk():
                x = e.c if e.k == "Sub" else e.args() if e.k == "Call" and e.op == "[]" else None
                if x is None or len(x) != 2 or "FFInt" not in e.t:
                    continue
                p = poly(fp, x[1])
                if p is not None and l[0] in p.atoms() and p.get((l[0],), 0) != 1:
                    ctx.bad("layout", "%s.%s.order" % (short(f), tag), y.loc(), "%s does not send the coordinates in their order" % short(f))
            break


def results(ctx, P):
    """what a worker collects: number of the probe, then the results in their order"""
    k = 0
    for f in scope(P):
        if f.recn.split("::")[-1] != "MPIWorker" or f.lam:
            continue
        ev = [n for n in f.walk() if n.k == "Call" and n.name == "eval" and n.obj is not None and "BlackBox" in n.obj.t]
        if not ev:
            continue
        fp = FPaths(f, {})
        ins = [n for n in f.walk() if n.k == "Call" and n.obj is not None and n.name == "insert" and fp.of(n.obj)[:1] == ("this",) and len(n.args()) == 3]
        for n in ins:
            a = strip(n.args()[1])
            while a is not None and a.k in ("Construct", "Cast") and len(a.args() or a.c) == 1:
                a = strip((a.args() or a.c)[0])
            if a is None or a.obj is None:
                continue
            v = fp.of(a.obj)[:3]
            if v and v[-1] == "[]":
                v = v[:-1]
            hs = [y for y in f.walk() if hits(fp, y, v)]
            if not hs:
                ctx.notes.append("layout: cannot see how %s fills the results (%s)" % (short(f), n.loc()))
                continue
            k += 1
            first = min(hs, key=lambda y: y.id)
            val = any(x.k == "Member" and x.name == "n" and x.c and "FFInt" in x.c[0].t for x in first.args()[0].walk())
            if val:
                ctx.bad("layout", "%s.RESULT.number" % short(f), first.loc(), "%s does not begin a result with the number of the probe" % short(f))
                continue
            good = True
            for y in hs:
                if y is first:
                    continue
                vals = [x for x in y.args()[0].walk() if x.k == "Member" and x.name == "n" and x.c and "FFInt" in x.c[0].t]
                if not vals:
                    good = False
                    ctx.bad("layout", "%s.RESULT.value" % short(f), y.loc(), "%s puts something other than the results behind the number of the probe" % short(f))
                    continue
                l = None
                for a2 in y.ancestors():
                    l = loop_of(fp, a2)
                    if l is not None or a2.k == "ForRange":
                        break
                if l is not None and l[1] != const(0):
                    good = False
                    ctx.bad("layout", "%s.RESULT.range" % short(f), y.loc(), "%s leaves out results of a probe" % short(f))
                if l is not None and good:
                    # the innermost loop must be the one over the results
                    base = strip(vals[0].c[0])
                    idx = []
                    while base is not None and (base.k == "Sub" or base.k == "Call" and base.op == "[]"):
                        x = base.args() if base.k == "Call" else base.c
                        idx.append(poly(fp, x[1]))
                        base = strip(x[0])
                    if idx and idx[-1] is not None and l[0] not in idx[-1].atoms():
                        good = False
                        ctx.bad("layout", "%s.RESULT.order" % short(f), y.loc(), "%s does not put the results of one probe next to each other" % short(f))
            if good:
                ctx.ok("layout", "%s: number, then the results" % n.loc())
    ctx.need("layout", k, "places where a worker collects results")


# ---------------------------------------------------------------- fields
def reaching(f, node, d):
    """the right-hand sides (or calls) that may have defined a local at a node"""
    g = f.cfg

    def tr(kind, n, s):
        if kind != "S":
            return s
        if n.k == "Decl":
            for v in n.vars:
                if v.d == d:
                    return frozenset([v.init.id if v.init is not None else -1])
        if n.k == "Assign":
            t = strip(n.c[0])
            if t is not None and t.k == "Ref" and t.d["d"] == d:
                return frozenset([n.c[1].id])
        if n.k == "Call" and n.name in ("MPI_Recv", "MPI_Bcast") and n is not node:
            t = tgt(n.args()[0])
            if t is not None and t.k == "Ref" and t.d["d"] == d:
                return frozenset([n.id])
        return s
    inn = forward(f, frozenset(), tr, lambda a, b: a | b, None)
    for b, s in inn.items():
        for kind, n in g.els(g.blocks[b]):
            if kind == "S" and n is node:
                return s
            s = tr(kind, n, s)
    return frozenset()


def primes(ctx, P):
    own = set()
    for f in scope(P):
        if f.recn.split("::")[-1] != "Reconstructor":
            continue
        for n in f.walk():
            if n.k == "Call" and n.name == "set_new_prime" and n.args():
                for x in n.args()[0].walk():
                    if x.k == "Member" and x.c and strip(x.c[0]) is not None and strip(x.c[0]).k == "This" and not x.d.get("sm"):
                        own.add(x.name)
    recvs = {}
    k = 0
    for f in scope(P):
        if f.recn.split("::")[-1] != "MPIWorker":
            continue
        for n in f.walk():
            if n.k != "Call" or n.name != "set_new_prime" or not n.args():
                continue
            a = strip(n.args()[0])
            ix = None
            if a.k == "Sub" or a.k == "Call" and a.op == "[]":
                ix = strip((a.args() if a.k == "Call" else a.c)[1])
            elif a.k == "Call" and a.name == "at" and a.args():
                ix = strip(a.args()[0])
            if ix is None or ix.k != "Ref":
                ctx.notes.append("prime: cannot tell which field %s (%s) sets" % (short(f), n.loc()))
                continue
            if any(p.d == ix.d["d"] for p in f.params):
                ctx.notes.append("prime: the field %s (%s) sets is handed in" % (short(f), n.loc()))
                continue
            k += 1
            ok = True
            for i in reaching(f, n, ix.d["d"]):
                x = f.nodes.get(i)
                if x is not None and x.k == "Call" and x.name in ("MPI_Recv", "MPI_Bcast"):
                    recvs[x.loc()] = (f, x)
                elif x is not None and x.k == "Call" and P.callee(x) is not None:
                    ctx.notes.append("prime: field of %s comes from %s" % (short(f), txt(x)))
                else:
                    ok = False
                    ctx.bad("prime", "%s.field" % short(f), n.loc(), "%s changes to a field the master has not sent" % short(f))
            if ok:
                ctx.ok("prime", "%s: field as received" % n.loc())
    ctx.need("prime", k, "changes of the field by a worker")
    # what the master sends there
    pairs = getattr(ctx, "c13pairs", set())
    sites = {}
    for f in scope(P):
        for n in f.walk():
            if n.k == "Call" and n.name in BUF:
                sites[n.loc()] = (f, n)
    m = 0
    for s, r in sorted(pairs):
        if r not in recvs or s not in sites:
            continue
        f, n = sites[s]
        x = tgt(n.args()[0])
        m += 1
        names = set()
        bad = False
        if x.k == "Member":
            names.add(x.name)
        elif x.k == "Ref":
            for i in reaching(f, n, x.d["d"]):
                e = f.nodes.get(i)
                if e is None or e.cv is not None:
                    bad = True
                    continue
                names |= {y.name for y in e.walk() if y.k == "Member" and not y.d.get("sm")}
                if strip(e).k not in ("Member", "Ref", "Cond"):
                    bad = bad or strip(e).k == "Bin"
        if bad or names and not names <= own:
            ctx.bad("prime", "%s.sent" % short(f), n.loc(), "%s sends %s, which is not always the number of the field the master works in (%s)" % (short(f), txt(x), ", ".join(sorted(own))))
        elif names:
            ctx.ok("prime", "%s: %s" % (n.loc(), ", ".join(sorted(names))))
        else:
            ctx.notes.append("prime: cannot tell what %s sends (%s)" % (txt(x), n.loc()))
    if pairs:
        ctx.need("prime", m, "messages that carry a field number")
