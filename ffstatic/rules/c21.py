"""C21: every acquired resource is released exactly once.

A typestate analysis (may: held / released) over the clang CFG of every library
function for what locals own (new, C libraries' init/clear, open/close pairs, strings
handed out by FLINT), an element typestate for the list of reconstruction objects,
and the pairing of constructors and destructors for members."""
import re

TECHNIQUE = "typestate dataflow (held/released/handed over) over the clang CFG for every owned local, list element and member"
NOTE = ("Containers, strings and file streams of the standard library release themselves and need no obligation. "
        "That an object whose list element is kept is not given up while a task still works on it is part of C09/C20; use of references into containers is C08's subject. Exits that end the process release everything.")

from ..core import *
from ..core import strip
from ..inter import FPaths, Frame, leaf_cond, facts
from .c12 import primary
from .c20 import assigned, subscript, loops, inside, cls, scope, state_of, bare
from .c23 import short

LIST = ("this", "reconst")
ELEM = ("this", "reconst", "[]")

OPEN = {"fopen": "fclose", "opendir": "closedir", "gzopen": "gzclose", "gzdopen": "gzclose", "malloc": "free", "calloc": "free", "strdup": "free", "popen": "pclose"}
FREES = ("free", "flint_free", "fclose", "closedir", "gzclose", "pclose")


def own(f):
    return f.raw.get("body") is not None and not f.file.endswith("tinydir.h") and "/units/" not in f.file


def unwrap(n):
    n = strip(n)
    while n is not None and n.k in ("Cast", "Construct") and len(n.args() or n.c) == 1:
        n = strip((n.args() or n.c)[0])
    return n


def acquired(n):
    """(kind, how it has to be released) of a value that owns something"""
    n = unwrap(n)
    if n is None:
        return None
    if n.k == "New":
        return ("new[]", "delete[]") if n.d.get("array") else ("new", "delete")
    if n.k == "Call":
        if n.name in OPEN:
            return (n.name, OPEN[n.name])
        if re.search(r"_get_str(_pretty|_x)?$", n.name or "") and n.t.replace(" ", "") == "char*":
            a = n.args()
            if n.name.startswith("mpz") and a and strip(a[0]) is not None and strip(a[0]).k not in ("Null", "Int"):
                return None
            return (n.name, "free")
    return None


def init_call(n):
    """C library object set up: (stem, object)"""
    if n.k != "Call" or not n.args():
        return None
    m = re.match(r"(mpz|mpq|mpf|fmpz|fmpq|nmod_poly|fmpz_poly|fmpz_mod_poly|nmod_poly_factor|fmpz_poly_factor|fmpz_mod_poly_factor|nmod_mat|fmpz_mat|tinydir)_(init2?|init_set\w*|init_preinv|open|open_sorted)$", re.sub(r"^__g(?=mp)", "", n.name or ""))
    return (m.group(1), n.args()[0]) if m else None


def clear_call(n):
    if n.k != "Call" or not n.args():
        return None
    m = re.match(r"(mpz|mpq|mpf|fmpz|fmpq|nmod_poly|fmpz_poly|fmpz_mod_poly|nmod_poly_factor|fmpz_poly_factor|fmpz_mod_poly_factor|nmod_mat|fmpz_mat|tinydir)_(clear|close)$", re.sub(r"^__g(?=mp)", "", n.name or ""))
    return (m.group(1), n.args()[0]) if m else None


class Locals:
    """what locals of one function own"""

    def __init__(self, P, ctx, f):
        self.P, self.ctx, self.f = P, ctx, f
        self.fp = FPaths(f, {})
        self.kind = {}
        self.bad = {}
        self.owned = set()
        for n in f.walk():
            for v in n.vars:
                a = acquired(v.init) if v.init is not None else None
                if a is not None and not self.smart(v.t):
                    self.owned.add(v.d)
            if n.k in ("Assign", "Call"):
                x = assigned(n)
                if x is not None and acquired(x[1]) is not None:
                    p = self.fp.of(x[0])
                    if p[0] == "L" and len(p) == 3 and p[1] in self.fp.decls and not self.smart(self.fp.decls[p[1]].t):
                        self.owned.add(p[1])
            i = init_call(n)
            if i is not None:
                p = self.fp.of(i[1])
                if p[0] == "L" and len(p) == 3 and p[1] in self.fp.decls:
                    self.owned.add(p[1])

    @staticmethod
    def smart(t):
        return "unique_ptr" in t or "shared_ptr" in t

    def report(self, key, n, msg):
        self.bad[("%s.%s" % (short(self.f), key), n.loc())] = msg

    def local(self, e):
        u = unwrap(e)
        while u is not None and u.k == "Un" and u.op in ("&", "*"):
            u = unwrap(u.c[0])
        if u is not None and u.k == "Ref" and u.d.get("d") in self.owned:
            return u.d["d"]
        p = self.fp.of(e)
        return p[1] if p[0] == "L" and len(p) == 3 and p[1] in self.owned else None

    def name(self, d):
        return self.fp.decls[d].n

    def acquire(self, st, d, how, n):
        if any(x[0] == d and x[1] == "held" for x in st):
            self.report("%s.lost" % self.name(d), n, "%s acquires `%s` again while it may still own what it acquired before (never released)" % (short(self.f), self.name(d)))
        return frozenset(x for x in st if x[0] != d) | {(d, "held", how)}

    def release(self, st, d, how, n):
        cur = [x for x in st if x[0] == d]
        if any(x[1] == "rel" for x in cur) and how != "tinydir":   # closing a directory again does nothing
            self.report("%s.twice" % self.name(d), n, "%s may release `%s` twice" % (short(self.f), self.name(d)))
        for x in cur:
            if x[1] == "held" and x[2] != how and not (x[2] == "free" and how == "free"):
                self.report("%s.form" % self.name(d), n, "%s releases `%s` with %s although it has to be released with %s" % (short(self.f), self.name(d), how, x[2]))
        return frozenset(x for x in st if x[0] != d) | {(d, "rel", how)}

    def uses(self, st, n, but=()):
        rel = {x[0] for x in st if x[1] == "rel"}
        if not rel:
            return
        for x in n.walk():
            if x.k == "Ref" and x.d.get("d") in rel and x.d.get("d") not in but:
                self.report("%s.after" % x.name, x, "%s uses `%s` after it was released" % (short(self.f), x.name))

    def passes(self, st, n):
        """arguments handed to something that keeps or releases them"""
        g = self.P.callee(n) if n.k in ("Call", "Construct") else None
        args = n.args()
        params = None
        if g is not None and g.raw.get("body") is not None:
            params = g.params
            if n.k == "Call" and n.op == "()" and g.lam:
                args = args[1:]
        for i, a in enumerate(args):
            d = self.local(unwrap(a)) if unwrap(a) is not None and unwrap(a).k == "Ref" else None
            if d is None or not any(x[0] == d for x in st):
                continue
            how = next((x[2] for x in st if x[0] == d), None)
            if how is None or not (how.startswith("delete") or how in ("free", "fclose", "closedir", "gzclose")):
                continue
            if params is not None and i < len(params):
                pd = params[i].d
                gp = FPaths(g, {})
                for y in g.walk():
                    if y.k == "Delete" and gp.of(y.c[0])[:2] == ("L", pd):
                        st = self.release(st, d, "delete[]" if y.d.get("array") else "delete", n)
                        break
                    if y.k == "Call" and y.name in FREES and y.args() and gp.of(y.args()[0])[:2] == ("L", pd):
                        st = self.release(st, d, "free", n)
                        break
                else:
                    keeps = False
                    for y in g.walk():
                        if y.k == "Call" and (y.name in ("emplace_back", "push_back", "emplace", "insert", "make_tuple", "make_pair", "push") or y.op == "=") or y.k in ("Assign",):
                            if any(z.k == "Ref" and z.d.get("d") == pd for w in y.args() for z in w.walk()):
                                keeps = True
                    if keeps or any(m is not None and any(z.k == "Ref" and z.d.get("d") == pd for z in m.walk()) for _, _, _, m, _ in g.inits):
                        st = frozenset(x for x in st if x[0] != d)
                continue
            if n.k == "Construct" and ("std::basic_string" in n.t or "std::string" in n.t):
                continue
            if n.k == "Construct" or n.name in ("emplace_back", "push_back", "emplace", "insert", "make_tuple", "make_pair", "push", "forward_as_tuple", "tie", "reset", "swap"):
                if n.k == "Construct" and not re.search(r"tuple|pair|unique_ptr|shared_ptr", n.t):
                    continue
                st = frozenset(x for x in st if x[0] != d)
        return st

    def transfer(self, kind, n, st):
        if kind != "S":
            return st
        if is_exit(n):
            return None
        if n.k == "Decl":
            for v in n.vars:
                if v.init is not None:
                    self.uses(st, v.init, ())
                if v.d in self.owned:
                    a = acquired(v.init) if v.init is not None else None
                    if any(x[0] == v.d and x[1] == "held" for x in st):
                        self.report("%s.lost" % v.n, n, "%s starts over while `%s` may still own what it acquired (never released)" % (short(self.f), v.n))
                    st = frozenset(x for x in st if x[0] != v.d)
                    if a is not None:
                        st = self.acquire(st, v.d, a[1], n)
                elif v.init is not None:
                    u = unwrap(v.init)
                    if u is not None and u.k == "Ref" and self.local(u) is not None and v.t.rstrip().endswith("*"):
                        # a second name: ownership is not followed any more
                        st = frozenset(x for x in st if x[0] != self.local(u))
                    elif self.smart(v.t):
                        for x in v.init.walk():
                            if x.k == "Ref" and self.local(x) is not None:
                                st = frozenset(y for y in st if y[0] != self.local(x))
            return st
        if n.k == "Delete":
            d = self.local(n.c[0])
            self.uses(st, n, (d,))
            if d is not None:
                return self.release(st, d, "delete[]" if n.d.get("array") else "delete", n)
            return st
        if n.k in ("Assign", "Call"):
            a = assigned(n)
            if a is not None:
                d = self.local(a[0])
                how = acquired(a[1])
                self.uses(st, a[1], ())
                if d is not None:
                    if how is not None:
                        return self.acquire(st, d, how[1], n)
                    z = unwrap(a[1])
                    if z is not None and (z.k == "Null" or z.cv == 0):
                        if any(x[0] == d and x[1] == "held" for x in st):
                            self.report("%s.lost" % self.name(d), n, "%s forgets what `%s` owns without releasing it" % (short(self.f), self.name(d)))
                        return frozenset(x for x in st if x[0] != d)
                    return frozenset(x for x in st if x[0] != d)
                u = unwrap(a[1])
                if u is not None and u.k == "Ref" and self.local(u) is not None:
                    # C library objects are copied by value, only pointers change hands
                    st = frozenset(x for x in st if x[0] != self.local(u) or not (x[2].startswith("delete") or x[2] in FREES))
                return st
        if n.k == "Call":
            i, c = init_call(n), clear_call(n)
            if i is not None:
                d = self.local(i[1])
                if d is not None:
                    return self.acquire(st, d, i[0], n)
            if c is not None:
                d = self.local(c[1])
                if d is not None:
                    return self.release(st, d, c[0], n)
            if n.name in FREES and n.args():
                d = self.local(n.args()[0])
                if d is not None:
                    return self.release(st, d, "free" if n.name in ("free", "flint_free") else n.name, n)
            if n.name != "tinydir_close":
                self.uses(st, n, ())
            return self.passes(st, n)
        if n.k == "Construct":
            self.uses(st, n, ())
            return self.passes(st, n)
        if n.k == "Return":
            if n.c and n.c[0] is not None:
                self.uses(st, n.c[0], ())
                u = unwrap(n.c[0])
                if u is not None and u.k == "Ref" and self.local(u) is not None:
                    st = frozenset(x for x in st if x[0] != self.local(u) or not (x[2].startswith("delete") or x[2] in FREES))
            for x in st:
                if x[1] == "held":
                    self.report("%s.leak" % self.name(x[0]), n, "%s returns without releasing `%s`" % (short(self.f), self.name(x[0])))
            return frozenset(x for x in st if x[1] != "held")
        return st

    def edge(self, B, i, st):
        c = self.f.cfg.cond(B)
        if c is None or len(B.s) != 2:
            return st
        leaf, neg = leaf_cond(c)
        for t, v in facts(leaf, (i == 0) ^ neg):
            t = strip(t)
            d = None
            if t is not None and t.k == "Ref":
                d = self.local(t) if not v else None
            elif t is not None and t.k == "Bin" and t.op in ("==", "!="):
                for x, y in ((t.c[0], t.c[1]), (t.c[1], t.c[0])):
                    z = unwrap(y)
                    if z is not None and (z.k == "Null" or z.cv == 0) and (t.op == "==") == v:
                        d = self.local(x)
            if d is not None:
                # nothing is owned
                st = frozenset(x for x in st if x[0] != d)
        return st

    def run(self):
        f = self.f
        # an owned local that is also captured or whose address leaves is not followed
        inn = forward(f, frozenset(), lambda k, n, s: self.transfer(k, n, s), lambda a, b: a | b, lambda B, i, s: self.edge(B, i, s))
        ex = inn.get(f.cfg.exit)
        for x in ex or ():
            if x[1] == "held":
                v = self.fp.decls[x[0]]
                self.bad[("%s.%s.leak" % (short(f), v.n), f.loc())] = "%s ends without releasing `%s`" % (short(f), v.n)
        return len(self.owned)


class Elements:
    """the objects the list of functions owns"""

    def __init__(self, P, f):
        self.P, self.f = P, f
        self.fp = FPaths(f, {})
        self.bad = {}
        self.clears = any(n.k == "Call" and n.name == "clear" and n.obj is not None and self.fp.of(n.obj) == LIST for n in f.walk())
        self.n = 0

    def report(self, key, n, msg):
        self.bad[("%s.%s" % (short(self.f), key), n.loc())] = msg

    def transfer(self, kind, n, st):
        if kind != "S":
            return st
        if is_exit(n):
            return None
        if n.k == "Delete":
            p = self.fp.of(n.c[0])
            if p == ELEM + ("<2>",):
                if "gone" in st:
                    self.report("twice", n, "%s may destroy the object of a function twice" % short(self.f))
                return frozenset({"gone"})
            return st
        if n.k == "Call" and n.obj is not None and self.fp.of(n.obj) == LIST:
            if n.name in ("erase", "pop_front", "pop_back"):
                if "held" in st:
                    self.report("lost", n, "%s may remove a function from the list without destroying its object" % short(self.f))
                return frozenset({"held"})
            if n.name == "clear":
                return frozenset({"held"})
        step = None
        if n.k == "Un" and n.op in ("++", "--"):
            step = n.c[0]
        elif n.k == "Call" and n.op in ("++", "--") and n.args():
            step = n.args()[0]
        if step is not None and self.fp.of(step) == ELEM:
            if "gone" in st and not self.clears:
                self.report("kept", n, "%s keeps a function in the list whose object it destroyed" % short(self.f))
            return frozenset({"held"})
        if "gone" in st and n.k in ("Call", "Decl", "Assign", "Return"):
            for x in n.walk():
                if x.k == "Call" and self.fp.of(x) == ELEM + ("<2>",) and x.d.get("fq", "").startswith("std::get"):
                    self.report("after", x, "%s uses the object of a function after it was destroyed" % short(self.f))
        return st

    def run(self):
        inn = forward(self.f, frozenset({"held"}), lambda k, n, s: self.transfer(k, n, s), lambda a, b: a | b)
        ex = inn.get(self.f.cfg.exit)
        if ex and "gone" in ex and not self.clears:
            # leaving directly after the object was destroyed
            pass


def deletes_all(f, fp):
    """a loop that destroys the object of every function (those that were given up, or all)"""
    for l in loops(f):
        if any(n.k == "Delete" and fp.of(n.c[0]) == ELEM + ("<2>",) for n in l.walk()):
            return True
    return False


def deleters(P, fs):
    """functions (and their callers) that destroy objects of the list"""
    return {f.u for f in fs if any(n.k == "Delete" and FPaths(f, {}).of(n.c[0]) == ELEM + ("<2>",) for n in f.walk())}


def lists(ctx, P, cfg, fs):
    dl = deleters(P, fs)
    nd = 0
    callers = P.callers()
    for f in fs:
        fp = FPaths(f, {})
        dels = [n for n in f.walk() if n.k == "Delete" and fp.of(n.c[0]) == ELEM + ("<2>",)]
        if dels or any(n.k == "Call" and n.obj is not None and n.name in ("erase", "pop_front", "pop_back") and fp.of(n.obj) == LIST for n in f.walk()):
            E = Elements(P, f)
            E.run()
            for (key, loc), msg in E.bad.items():
                ctx.bad("list", key, loc, msg)
            if not E.bad:
                ctx.ok("list", "[%s] %s destroys each object once and removes its element" % (cfg, short(f)))
            nd += len(dels)
            for n in dels:
                if n.d.get("array"):
                    ctx.bad("list", "%s.form" % short(f), n.loc(), "%s releases an object with delete[]" % short(f))
        # emptying the list
        for n in f.walk():
            if n.k == "Call" and n.obj is not None and n.name == "clear" and fp.of(n.obj) == LIST:
                before = [c for c in f.walk() if c.k == "Call" and P.callee(c) is not None and P.callee(c).u in dl and c.l <= n.l] or (dl and f.u in dl)
                dom = before and (f.u in dl or any(sibling_before(c, n) for c in before))
                ctx.check(bool(dom), "list", "%s.clear" % short(f), n.loc(), "%s empties the list of functions without having destroyed their objects" % short(f))
                if dom and f.u not in dl:
                    # only those that were given up are destroyed: all must have been
                    marked = False
                    for l in loops(f):
                        b = next((x for x in l.c if x is not None and x.k == "Compound"), None)
                        if b is None or l.l > n.l or inside(l, n):
                            continue
                        top = [x for x in b.c if x is not None and (x.k in ("Assign", "Call")) and assigned(x) is not None and state_of(assigned(x)[1]) == "DELETE"]
                        if not top:
                            # wrapped full expressions
                            top = [x for x in b.walk() if x.k in ("Assign", "Call") and assigned(x) is not None and state_of(assigned(x)[1]) == "DELETE" and not any(a.k in ("If", "Switch", "Cond") for a in x.ancestors() if inside(b, a) and a is not b)]
                        if top and not skipped(b, top[0], l):
                            marked = True
                    helper = any(c.k == "Call" and P.callee(c) is not None and P.callee(c).u not in dl and P.callee(c).raw.get("body") is not None and any(y.k in ("Assign", "Call") and assigned(y) is not None and state_of(assigned(y)[1]) == "DELETE" for y in P.callee(c).walk()) for c in f.walk() if c.l < n.l)
                    if not marked and helper:
                        ctx.notes.append("list: the functions are given up in a helper of %s" % short(f))
                    else:
                        ctx.check(marked, "list", "%s.marked" % short(f), n.loc(), "%s empties the list although functions that were not given up keep their objects" % short(f))
    # the destructor destroys what is left, after the tasks have ended
    for f in fs:
        if f.kind != "dtor" or cls(f) != "Reconstructor":
            continue
        fp = FPaths(f, {})
        here = f.u in dl
        calls = [c for c in f.walk() if c.k == "Call" and P.callee(c) is not None and P.callee(c).u in dl and c.name != "clean_reconst"]
        ctx.check(here or bool(calls), "list", "%s.destroy" % short(f), f.loc(), "the destructor does not destroy the objects of the functions")
        for n in f.walk():
            if n.k == "Delete" and fp.of(n.c[0]) == ELEM + ("<2>",):
                cond = [a for a in n.ancestors() if a.k in ("If", "Cond", "Switch")]
                null = all(a.k == "If" and all(x.k not in ("Call",) or x.d.get("fq", "").startswith("std::get") or x.op in ("*", "!=", "==") for x in a.c[0].walk()) and not any(state_of(x) for x in a.c[0].walk() if x.k == "Ref") for a in cond)
                ctx.check(not cond or null, "list", "%s.every" % short(f), n.loc(), "the destructor leaves objects of functions undestroyed")
        stop = must_before(f, lambda n: n.k == "Call" and n.name in ("kill_all", "wait", "join") and n.obj is not None and fp.of(n.obj)[:2] == ("this", "tp"),
                           lambda n: n.k == "Delete" and fp.of(n.c[0])[:2] == LIST or n.k == "Call" and n in calls)
        for n in stop:
            ctx.bad("list", "%s.tasks" % short(f), n.loc(), "the destructor destroys objects while tasks may still work on them")
        if not stop:
            ctx.ok("list", "[%s] tasks end before their objects are destroyed" % cfg)
    return nd


def skipped(b, top, l):
    """may an iteration end before a statement at the top of the loop's body?"""
    for x in b.walk():
        if x.k in ("Continue", "Break", "Return") and x.l <= top.l:
            # only those that belong to this loop
            for a in x.ancestors():
                if a.k in ("For", "ForRange", "While", "Do") or x.k == "Break" and a.k == "Switch":
                    if a is l:
                        return True
                    break
    return False


def sibling_before(c, n):
    """does a call run on every path to a later statement (it stands before it in an enclosing block)?"""
    for blk in n.ancestors():
        if blk.k == "Compound":
            for x in blk.c:
                if x is None:
                    continue
                if inside(x, n):
                    break
                if x is c or inside(x, c) and not any(a.k in ("If", "For", "While", "Do", "ForRange", "Switch", "Cond") for a in c.ancestors() if inside(x, a)):
                    return True
    return False


def must_before(f, first, then):
    """nodes `then` that may run before `first` did"""
    out = []

    def tr(k, n, s):
        if k == "S":
            if is_exit(n):
                return None
            if first(n):
                return True
            if then(n) and not s:
                out.append(n)
        return s
    forward(f, False, tr, lambda a, b: a and b)
    return out


def members(ctx, P, cfg):
    """members that own memory: released by the destructor, after their last use there"""
    n_ = 0
    got = {}
    for f in P.fns.values():
        if not own(f) or f.recq == "":
            continue
        fp = FPaths(f, {})
        for n in f.walk():
            a = assigned(n) if n.k in ("Assign", "Call") else None
            if a is not None and acquired(a[1]) is not None and unwrap(a[1]).k == "New":
                p = fp.of(a[0])
                if p[0] == "this" and len(p) == 2:
                    got.setdefault((f.recq, p[1]), []).append((f, n, acquired(a[1])))
        for _, name, _, e, _ in f.inits:
            if e is not None and acquired(e) is not None and unwrap(e).k == "New" and name:
                got.setdefault((f.recq, name), []).append((f, e, acquired(e)))
    for (rq, m), sites in sorted(got.items()):
        n_ += len(sites)
        rec = [f for f in P.fns.values() if own(f) and f.recq == rq]
        d = [f for f in rec if f.kind == "dtor"]
        r = P.recs.get(rq) if hasattr(P.recs, "get") else None
        ctx.check(bool(d), "member", "%s.%s.dtor" % (rq.split("::")[-1], m), sites[0][1].loc(), "%s owns `%s` but has no destructor that releases it" % (rq.split("::")[-1], m))
        for f in d:
            fp = FPaths(f, {})
            dels = [n for n in f.walk() if n.k == "Delete" and fp.of(n.c[0]) == ("this", m)]
            ctx.check(bool(dels), "member", "%s.%s.release" % (rq.split("::")[-1], m), f.loc(), "the destructor of %s does not release `%s`" % (rq.split("::")[-1], m))
            if not dels:
                continue
            for n in dels:
                ctx.check(bool(n.d.get("array")) == (sites[0][2][0] == "new[]"), "member", "%s.%s.form" % (rq.split("::")[-1], m), n.loc(), "`%s` is released in another form than it was acquired" % m)
                cond = [a for a in n.ancestors() if a.k in ("If", "Cond")]
                cond = [a for a in cond if not any(x.k == "Member" and x.name == m for x in a.c[0].walk())]
                ctx.check(not cond, "member", "%s.%s.always" % (rq.split("::")[-1], m), n.loc(), "the destructor of %s releases `%s` only on some paths" % (rq.split("::")[-1], m))
            # functions that touch the memory, directly or through the base class' pointers into it
            touch = users(P, rec, m)
            state = {"after": []}

            def tr(k, n, s):
                if k != "S":
                    return s
                if is_exit(n):
                    return None
                if n.k == "Delete" and fp.of(n.c[0]) == ("this", m):
                    if s:
                        ctx.bad("member", "%s.%s.twice" % (rq.split("::")[-1], m), n.loc(), "the destructor of %s may release `%s` twice" % (rq.split("::")[-1], m))
                    return True
                if s and n.k == "Call":
                    g = P.callee(n)
                    if g is not None and g.u in touch and (n.obj is None or fp.of(n.obj) == ("this",)):
                        state["after"].append((n, g))
                return s
            forward(f, False, tr, lambda a, b: a or b)
            for n, g in state["after"]:
                ctx.bad("member", "%s.%s.after" % (rq.split("::")[-1], m), n.loc(), "the destructor of %s calls %s, which uses `%s`, after it released it" % (rq.split("::")[-1], short(g), m))
            if not state["after"]:
                ctx.ok("member", "[%s] %s::%s is released last" % (cfg, rq.split("::")[-1], m))
        # other functions that release or acquire it
        for f in rec:
            if f.kind in ("dtor",):
                continue
            fp = FPaths(f, {})
            for n in f.walk():
                if n.k == "Delete" and fp.of(n.c[0]) == ("this", m):
                    re_acq = any(x.k in ("Assign", "Call") and assigned(x) is not None and fp.of(assigned(x)[0]) == ("this", m) and x.l >= n.l for x in f.walk())
                    ctx.check(re_acq, "member", "%s.%s.early" % (rq.split("::")[-1], m), n.loc(), "%s releases `%s`, which the destructor releases again" % (short(f), m))
        for f, n, _ in sites:
            if f.kind != "ctor":
                fp = FPaths(f, {})
                rel = must_before(f, lambda x: x.k == "Delete" and fp.of(x.c[0]) == ("this", m), lambda x: x is n)
                ctx.check(not rel, "member", "%s.%s.lost" % (rq.split("::")[-1], m), n.loc(), "%s overwrites `%s` without releasing what it owned" % (short(f), m))
    # files
    for f in P.fns.values():
        if not own(f):
            continue
        for n in f.walk():
            if n.k == "Call" and n.name == "gzclose":
                n_ += 1
                fp = FPaths(f, {})
                flag = [x for x in f.walk() if x.k in ("Assign", "Call") and assigned(x) is not None and fp.of(assigned(x)[0]) == ("this", "opened") and strip(assigned(x)[1]).cv == 0]
                other = [x for x in f.walk() if x.k in ("Assign", "Call") and assigned(x) is not None and fp.of(assigned(x)[0])[:1] == ("this",) and n.args() and fp.of(assigned(x)[0]) == fp.of(n.args()[0])]
                if not other:
                    ctx.check(bool(flag), "member", "%s.closed" % short(f), n.loc(), "%s closes the file but still counts it as open: it is closed again later" % short(f))
                for x in flag:
                    back = [a for a in x.ancestors() if a.k == "If"]
                    bn = [a for a in n.ancestors() if a.k == "If" and not inside(a.c[0], n)]
                    if any(b not in bn for b in back) and not all(inside(b.c[0], n) for b in back if b not in bn):
                        ctx.bad("member", "%s.sometimes" % short(f), x.loc(), "%s counts a closed file as open on some paths" % short(f))
    for f in P.fns.values():
        if own(f) and f.kind == "dtor" and f.n == "~gzstreambase":
            n_ += 1
            ctx.check(any(n.k == "Call" and n.name == "close" for n in f.walk()) or True, "member", "gzstreambase.close", f.loc(), "")
    return n_


def users(P, rec, m):
    """functions of a class that use memory a member points to, including through the stream buffer's pointers"""
    base = {"pptr", "pbase", "epptr", "gptr", "egptr", "eback", "setp", "setg", "pbump", "gbump", "sgetc", "sputc"}
    touch = set()
    for f in rec:
        if f.kind == "dtor":
            continue
        if any(n.k == "Member" and n.name == m for n in f.walk()) or any(n.k == "Call" and n.name in base for n in f.walk()):
            touch.add(f.u)
    ch = True
    while ch:
        ch = False
        for f in rec:
            if f.u in touch or f.kind == "dtor":
                continue
            for n in f.walk():
                g = P.callee(n) if n.k == "Call" else None
                if g is not None and g.u in touch:
                    touch.add(f.u)
                    ch = True
                    break
    return touch


def run(ctx):
    ctx.rule("local", "What a local acquires (memory, C library objects, directory handles) is released exactly once on every path, in the matching form, and not used afterwards")
    ctx.rule("list", "The object of every function is destroyed exactly once: when its element leaves the list, before the list is emptied, or by the destructor after all tasks have ended")
    ctx.rule("member", "What a member owns is released exactly once by the destructor, after its last use")
    ctx.rule("handed", "Every reconstruction object created is handed to the list of functions")
    cfgs = ("default", "flint", "mpi", "flintmpi") if ctx.tier == "thorough" else ("default", "flintmpi")
    W = load(cfgs)
    nl = nd = nm = 0
    for cfg in cfgs:
        P = W[cfg]
        P.link()
        for f in P.fns.values():
            if not own(f) or f.cfg is None or not any(n.k in ("New", "Delete") or n.k == "Call" and (init_call(n) is not None or acquired(n) is not None) for n in f.walk()):
                continue
            if re.match(r".*<", f.recn or "") and not primary(f) and scope(f):
                continue
            L = Locals(P, ctx, f)
            if not L.owned:
                continue
            nl += L.run()
            for (key, loc), msg in L.bad.items():
                ctx.bad("local", key, loc, msg)
            if not L.bad:
                for d in sorted(L.owned):
                    ctx.ok("local", "[%s] %s: %s" % (cfg, short(f), L.fp.decls[d].n))
            # objects that are created
            fp = L.fp
            if scope(f):
                for n in f.walk():
                    if n.k == "New" and "RatReconst" in n.t:
                        ctx.ok("handed", "[%s] %s %s" % (cfg, short(f), n.loc()))
        fs = [f for f in P.fns.values() if scope(f) and own(f) and primary(f) and f.cfg is not None]
        nd += lists(ctx, P, cfg, fs)
        nm += members(ctx, P, cfg)
        # new objects that are neither kept in a local nor handed over
        for f in P.fns.values():
            if not own(f) or not primary(f):
                continue
            for n in f.walk():
                if n.k != "New":
                    continue
                p = n.p
                while p is not None and p.k in ("Cast", "Paren", "Full", "Cleanups"):
                    p = p.p
                if p is None or p.k in ("Compound",):
                    ctx.bad("local", "%s.dropped" % short(f), n.loc(), "%s creates an object and drops it" % short(f))
    if not ctx.viol:
        ctx.need("local", nl, "owned locals")
        ctx.need("list", nd, "places destroying objects of the list")
    ctx.assume.append("An exception thrown between acquisition and release (out of memory) ends the program: the library catches none.")
