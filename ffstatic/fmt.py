"""File formats: what a function writes to a stream (as a language of lines with the origin of every token) and what a reader makes of it.

Writer side: the output statements of a function are turned into a tree (literals, values with their access path, loops, conditions), the tree into an
automaton over lines. Reader side: an interprocedural forward analysis of the reading function in product with that automaton; constants of the reader's own
parsing state and the origin of tokens held by locals are tracked, and every store of a token's value into an object is recorded."""
import re
from .core import *
from .core import strip
from .inter import *

OUT = ("ogzstream", "basic_ofstream", "std::ofstream", "basic_ostream", "ostringstream", "basic_ostringstream", "std::ostream")
IN = ("igzstream", "basic_ifstream", "std::ifstream", "basic_istream", "istringstream", "std::istream")
STR = ("std::basic_string<char>", "std::string", "const std::string")


def is_out(t):
    return any(x in unconst(t) for x in OUT)


def is_str(t):
    return unconst(t).strip(" &").startswith(("std::basic_string<char", "std::string", "std::__cxx11::basic_string<char"))


class VPaths(FPaths):
    """access paths that also look through locals which are set once and never changed"""

    def __init__(self, P, fn, env=None, outer=None):
        FPaths.__init__(self, fn, env, outer)
        self.P = P
        self._chg = None

    def changed(self, d):
        if self._chg is None:
            s = set()
            for n in self.fn.walk():
                t = None
                if n.k == "Assign":
                    t = strip(n.c[0])
                elif n.k == "Un" and n.op in ("++", "--"):
                    t = strip(n.c[0])
                elif n.k == "Call" and n.op and (n.op in ("++", "--", "=") or n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">=")) and n.args():
                    t = strip(n.args()[0])
                if t is not None and t.k == "Ref":
                    s.add(t.d.get("d"))
            self._chg = s
        return d in self._chg

    def _alias(self, v):
        if Paths._alias(self, v):
            return True
        return v.fn is self.fn and not self.changed(v.d) and v.init is not None and strip(v.init).k in ("Ref", "Member", "Call", "Sub", "Un")

    def of(self, n, depth=0):
        n = strip(n)
        if n is not None and n.k == "Call" and depth < 25:
            if n.name in ("get_str", "str", "c_str", "to_string", "swap") and n.obj is not None:
                return self.of(n.obj, depth + 1)
            g = self.P.callee(n)
            if g is not None and not g.lam and (g.kind == "method" or not g.recn):
                p = self.getter(n, g, depth)
                if p is not None:
                    return p
            if n.d.get("fq", "") in ("std::to_string",) and n.args():
                return self.of(n.args()[0], depth + 1)
        if n is not None and n.k == "Construct" and len(n.args()) == 1 and depth < 25:
            return self.of(n.args()[0], depth + 1)
        return FPaths.of(self, n, depth)

    def getter(self, n, g, depth):
        """path of what a parameterless method returns, when it returns (part of) its object"""
        if g.params and len(n.args()) > len(g.params):
            return None
        rs = [x for x in g.walk() if x.k == "Return" and x.fn is g and x.c and x.c[0] is not None]
        ps = set()
        for r in rs:
            if strip(r.c[0]) is not None and strip(r.c[0]).cv is not None:
                continue
            p = VPaths(self.P, g, {"this": self.of(n.obj, depth + 1) if n.obj is not None else ("this",)}).of(r.c[0], depth + 1)
            ps.add(p)
        if len(ps) == 1:
            p = ps.pop()
            if p[0] not in ("?", "C") and not (p[0] == "L" and p[1] not in self.decls):
                return p
        return None


def resolve_types(P):
    return None


# ------------------------------------------------------------------ writers
class Rec:
    """one stretch of output to a file: path pattern and content tree"""

    def __init__(self, path, node, fn, append=False):
        self.path, self.node, self.fn, self.append = path, node, fn, append
        self.tree = []
        self.closed = None


def pat(items):
    """path pattern of string items: literals kept, values as *"""
    out = ""
    for i in items:
        out += i[1] if i[0] == "lit" else "*"
    return re.sub(r"\*+", "*", out)


class Writer:
    def __init__(self, P, fn, paths=None, streams=None, depth=0, strs=None):
        self.P, self.fn, self.depth = P, fn, depth
        self.paths = paths or VPaths(P, fn)
        self.cur = streams if streams is not None else {}   # stream key -> [Rec, list]
        self.strs = strs if strs is not None else {}        # string local -> list (since the enclosing branch or loop began)
        self.base = []                                      # values before the enclosing branches and loops
        self.recs = []
        self.unknown = []

    # strings
    def sval(self, e, depth=0):
        """items of a string (or streamable) expression"""
        e = strip(e)
        if e is None or depth > 30:
            return [("val", ("?",), None)]
        if e.k == "Str":
            return [("lit", decode(e.d.get("v")))]
        if e.k == "Char":
            return [("lit", chr(int(e.d.get("v", 0))))]
        if e.k == "Cond":
            a, b = self.sval(e.c[1], depth + 1), self.sval(e.c[2], depth + 1)
            return self.alt(e.c[0], a, b, e)
        if e.k == "Construct" and is_str(e.t):
            a = [x for x in e.args() if x.k != "DefArg"]
            if not a:
                return []
            return self.sval(a[0], depth + 1)
        if e.k == "Call":
            a = e.args()
            if e.op == "+" and len(a) == 2 and is_str(e.t):
                return self.sval(a[0], depth + 1) + self.sval(a[1], depth + 1)
            if e.name in ("c_str", "str") and e.obj is not None and is_str(e.obj.t):
                return self.sval(e.obj, depth + 1)
            if e.d.get("fq") == "std::to_string" and a:
                c = strip(a[0])
                if c.cv is not None:
                    return [("lit", str(c.cv))]
                return [("val", self.paths.of(a[0]) if self.paths.of(a[0])[0] != "?" else self.mix(a[0]), e)]
        if e.k == "Ref" and is_str(e.t):
            p = self.paths.of(e)
            k = e.d.get("d")
            if k in self.strs:
                return self.full(k)
            v = self.paths.decls.get(k)
            if v is not None and v.init is not None and v.fn is self.fn and not self.paths.changed(k):
                return self.sval(v.init, depth + 1)
            return [("val", p, e)]
        if e.cv is not None and e.k in ("Int", "Bool"):
            return [("lit", str(int(e.cv)))]
        p = self.paths.of(e)
        if p[0] == "?":
            p = self.mix(e)
        return [("val", p, e)]

    def full(self, k):
        v = list(self.strs[k])
        for b in reversed(self.base):
            if v[:1] == [("set",)]:
                break
            v = list(b.get(k, [])) + v
        return v[1:] if v[:1] == [("set",)] else v

    def mix(self, e):
        """provenance of a computed value: the set of paths it uses"""
        s = set()
        for x in e.walk():
            if x.k in ("Ref", "Member") and not (x.p is not None and x.p.k == "Member"):
                if x.k == "Ref" and x.d.get("dk") in ("func", "enum"):
                    continue
                p = self.paths.of(x)
                if p[0] in ("this", "L", "S"):
                    s.add(p)
        return ("mix", frozenset(s))

    def alt(self, c, a, b, e):
        if a == b:
            return a
        if all(x[0] == "lit" for x in a + b):
            A, B = "".join(x[1] for x in a), "".join(x[1] for x in b)
            # common tail (separators, line ends) stays literal
            k = 0
            while k < min(len(A), len(B)) and A[-1 - k] == B[-1 - k]:
                k += 1
            tail = A[len(A) - k:] if k else ""
            h1, h2 = A[:len(A) - k], B[:len(B) - k]
            if "\n" not in h1 + h2:
                return [("val", self.mix(c), e, (h1, h2))] + ([("lit", tail)] if tail else [])
        return [("if", c, a, b)]

    # statements
    def stream_key(self, e):
        e = strip(e)
        if e is not None and e.k == "Call" and e.op == "<<" and e.args():
            return self.stream_key(e.args()[0])
        if e is None:
            return None
        p = self.paths.of(e)
        return p if p in self.cur else None

    def out(self, e):
        """handles a chain of <<; returns the stream key"""
        e = strip(e)
        if e.k == "Call" and e.op == "<<" and len(e.args()) == 2:
            k = self.out(e.args()[0])
            if k is not None and self.cur.get(k) and self.cur[k][1] is not None:
                a = strip(e.args()[1])
                if a.k == "Ref" and a.d.get("dk") == "func":
                    if a.name == "endl":
                        self.cur[k][1].append(("lit", "\n"))
                else:
                    self.cur[k][1].extend(self.sval(e.args()[1]))
            return k
        return self.stream_key(e)

    def open(self, key, e, n, args):
        items = self.sval(e)
        r = Rec(items, n, self.fn, any("app" in txt(a) for a in args[1:]))
        self.recs.append(r)
        self.cur[key] = [r, r.tree]

    def stmts(self, n):
        if n is None:
            return
        k = n.k
        if k == "Compound" or k in ("Try", "Catch", "Label", "Attributed"):
            for x in n.c:
                self.stmts(x)
        elif k == "If":
            kids = n.c
            cond = kids[0]
            self.expr(cond)
            self.branch(n, cond, kids[1], kids[2] if len(kids) > 2 else None)
        elif k in ("For", "ForRange", "While", "Do"):
            body = n.c[3] if k == "For" else n.c[2] if k == "ForRange" else n.c[1] if k == "While" else n.c[0]
            if k == "For":
                self.stmts(n.c[0])
            cnt = self.count(n)
            sv, ss = self.sub()
            self.stmts(body)
            self.fold(sv, ss, lambda sub, now: [("loop", cnt, now, n)] if now else [])
        elif k == "Switch":
            self.stmts(n.c[1])
        elif k == "Case":
            self.stmts(n.c[-1])
        elif k == "Default":
            self.stmts(n.c[-1])
        elif k == "Decl":
            for v in n.vars:
                if is_str(v.t) and not v.t.rstrip().endswith("&"):
                    self.strs[v.d] = self.sval(v.init) if v.init is not None else []
                elif is_out(v.t) and "fstream" in v.t or "ogzstream" in v.t or "ostringstream" in v.t:
                    key = ("L", v.d, v.n)
                    self.cur[key] = [None, None]
                    i = strip(v.init) if v.init is not None else None
                    if i is not None and i.k == "Construct":
                        a = [x for x in i.args() if x.k != "DefArg"]
                        if a and not is_out(a[0].t):
                            self.open(key, a[0], n, a)
                elif v.init is not None:
                    self.expr(v.init)
        elif k == "Return":
            if n.c and n.c[0] is not None:
                self.expr(n.c[0])
        elif k == "Cond":
            self.branch(n, n.c[0], n.c[1], n.c[2])
        else:
            self.expr(n)

    def sub(self):
        sv = {k: v[1] for k, v in self.cur.items()}
        for k, v in self.cur.items():
            if v[1] is not None:
                v[1] = []
        ss = dict(self.strs)
        self.base.append(ss)
        for k in self.strs:
            self.strs[k] = []
        return sv, ss

    def fold(self, sv, ss, wrap):
        self.base.pop()
        for k, v in self.cur.items():
            if k in sv and sv[k] is not None and v[1] is not None:
                new = v[1]
                if v[0] is not None and any(new is r.tree for r in self.recs):
                    continue        # (re)opened inside
                sv[k].extend(wrap(k, new))
                v[1] = sv[k]
        for k in list(self.strs):
            if k in ss:
                new = self.strs[k]
                self.strs[k] = ss[k] + (wrap(k, new) if new else []) if not (new and new[0] == ("set",)) else new if self.base else new[1:]

    def branch(self, n, cond, a, b):
        sv, ss = self.sub()
        self.stmts(a)
        A = {k: v[1] for k, v in self.cur.items()}
        SA = dict(self.strs)
        for k, v in self.cur.items():
            if k in sv and sv[k] is not None and v[1] is not None and not any(v[1] is r.tree for r in self.recs):
                v[1] = []
        for k in self.strs:
            if k in ss:
                self.strs[k] = []
        if b is not None:
            self.stmts(b)
        self.base.pop()
        for k, v in self.cur.items():
            if k in sv and sv[k] is not None and v[1] is not None:
                if any(v[1] is r.tree for r in self.recs) or any(A.get(k) is r.tree for r in self.recs):
                    if any(A.get(k) is r.tree for r in self.recs) and not any(v[1] is r.tree for r in self.recs):
                        v[1] = A[k]
                    continue
                x, y = A.get(k) or [], v[1]
                if x or y:
                    sv[k].extend(self.alt(cond, x, y, n))
                v[1] = sv[k]
        for k in list(self.strs):
            if k in ss:
                x, y = SA.get(k, []), self.strs[k]
                if not (x[:1] == [("set",)] or y[:1] == [("set",)]):
                    self.strs[k] = ss[k] + (self.alt(cond, x, y, n) if x or y else [])
                    continue
                self.strs[k] = ss[k]
                before = self.full(k)
                x1, y1 = (x[1:] if x[:1] == [("set",)] else before + x), (y[1:] if y[:1] == [("set",)] else before + y)
                new = x1 if x1 == y1 else [("if", cond, x1, y1)]
                self.strs[k] = ([("set",)] if self.base else []) + new

    def count(self, n):
        """how often a loop runs: path of a bound (with offset) or of a container"""
        if n.k == "ForRange":
            rng = n.c[1].vars[0].init if n.c[1] is not None and n.c[1].vars else None
            return ("size", self.paths.of(rng))
        if n.k == "For" and n.c[0] is not None and n.c[0].vars and n.c[1] is not None:
            v = n.c[0].vars[0]
            c = strip(n.c[1])
            if c.k == "Bin" and c.op in ("<", "!=", "<=") and v.init is not None:
                i0 = strip(v.init)
                b = strip(c.c[1])
                off = 0
                l = strip(c.c[0])
                if l.k == "Bin" and l.op in ("+", "-") and strip(l.c[1]).cv is not None:
                    off = -strip(l.c[1]).cv * (1 if l.op == "+" else -1)
                if b.k == "Bin" and b.op in ("+", "-") and strip(b.c[1]).cv is not None:
                    off += strip(b.c[1]).cv * (1 if b.op == "+" else -1)
                    b = strip(b.c[0])
                if i0.cv is not None:
                    off += (1 if c.op == "<=" else 0) - i0.cv
                    if b.cv is not None:
                        return ("const", b.cv + off)
                    if b.k == "Call" and b.name == "size" and b.obj is not None:
                        return ("size", self.paths.of(b.obj), off)
                    return ("path", self.paths.of(b), off)
        return ("?",)

    def expr(self, e):
        e = strip(e)
        if e is None:
            return
        if e.k == "Cond":
            self.branch(e, e.c[0], e.c[1], e.c[2])
            return
        if e.k == "Call":
            if e.op == "<<":
                self.out(e)
                return
            if e.op == "()" or True:
                a = e.args()
                if e.obj is not None:
                    key = self.paths.of(e.obj)
                    if e.name == "open" and key in self.cur and a:
                        self.open(key, a[0], e, a)
                        return
                    if e.name == "close" and key in self.cur:
                        if self.cur[key][0] is not None:
                            self.cur[key][0].closed = e
                        self.cur[key][1] = None
                        return
                    if e.name in ("append", "push_back") and is_str(e.obj.t):
                        k = strip(e.obj).d.get("d") if strip(e.obj).k == "Ref" else None
                        if k in self.strs and a:
                            self.strs[k].extend(self.sval(a[0]))
                        return
                    if e.name in ("pop_back", "erase", "insert", "replace", "resize") and is_str(e.obj.t):
                        k = strip(e.obj).d.get("d") if strip(e.obj).k == "Ref" else None
                        if k in self.strs:
                            self.strs[k] = [("set",), ("val", self.paths.of(e.obj), e)]
                        return
                    if e.name == "clear" and is_str(e.obj.t) and strip(e.obj).k == "Ref" and strip(e.obj).d.get("d") in self.strs:
                        self.strs[strip(e.obj).d["d"]] = [("set",)]
                        return
                if e.op in ("=", "+=") and len(a) == 2 and is_str(a[0].t):
                    k = strip(a[0]).d.get("d") if strip(a[0]).k == "Ref" else None
                    if k in self.strs:
                        v = self.sval(a[1])
                        if e.op == "=":
                            self.strs[k] = ([("set",)] if self.nested() else []) + v
                        else:
                            self.strs[k].extend(v)
                        return
                g = self.P.callee(e)
                if g is not None and self.depth < 5 and (any(self.paths.of(x) in self.cur for x in a) or g.lam and any(x.k == "Ref" and is_out(x.t) for x in g.walk())):
                    self.inline(e, g)
                    return
        for x in e.kids():
            if x.k not in ("Lambda",):
                self.expr(x)

    def nested(self):
        return bool(self.base)

    def inline(self, e, g):
        a = e.args()
        if g.lam and e.op == "()":
            a = a[1:]
        env = {"this": self.paths.of(e.obj) if e.obj is not None else ("this",)}
        for pv, x in zip(g.params, a):
            p = self.paths.of(x)
            if p[0] != "?":
                env[pv.d] = p
        w = Writer(self.P, g, VPaths(self.P, g, env, self.paths if g.lam else None), self.cur, self.depth + 1, self.strs)
        for pv, x in zip(g.params, a):
            if is_str(pv.t):
                self.strs[pv.d] = self.sval(x)
        w.recs = self.recs
        w.base = self.base
        w.stmts(g.body)

    def run(self):
        self.stmts(self.fn.body)
        return self.recs


def decode(s):
    return s if s is not None else ""


# ------------------------------------------------------------------ line automaton
class Tok:
    """a token of a line: literal text, value (origin, literal alternatives) or repeated value; sep: followed by a separator"""
    __slots__ = ("kind", "text", "prov", "cnt", "sep", "alts", "node")

    def __init__(self, kind, text=None, prov=None, cnt=None, sep=False, alts=None, node=None):
        self.kind, self.text, self.prov, self.cnt, self.sep, self.alts, self.node = kind, text, prov, cnt, sep, alts, node

    def __repr__(self):
        return "%s%s%s" % ({"lit": repr(self.text)}.get(self.kind, showp(self.prov)), "*" if self.kind == "rep" else "", "_" if self.sep else "")


def showp(p):
    if p is None:
        return "?"
    if p[0] == "mix":
        return "{" + ",".join(sorted(showp(x) for x in p[1])) + "}"
    return ".".join(str(x) for x in (p[1:] if p[0] == "this" else p[2:] if p[0] == "L" else p))


class Line:
    def __init__(self, toks, exact, node):
        self.toks, self.exact, self.node = toks, exact, node     # exact: text if the line is literal

    def __repr__(self):
        return "<" + " ".join(map(repr, self.toks)) + ">"


class Lines:
    """automaton: edges[state] = [(Line, state)], eps[state], accepting end"""

    def __init__(self, tree):
        self.edges, self.eps, self.n = {}, {}, 0
        self.lines = []
        self.bad = []
        s = self.new()
        self.start = s
        ends = self.build(tree, {(s, ())})
        self.final = self.new()
        for st, part in ends:
            if part:
                self.edge(st, part, self.final)
            else:
                self.eps.setdefault(st, set()).add(self.final)

    def new(self):
        self.n += 1
        return self.n - 1

    def edge(self, a, part, b):
        ln = self.line(part)
        self.lines.append(ln)
        self.edges.setdefault(a, []).append((len(self.lines) - 1, b))

    def build(self, tree, cur):
        for it in tree:
            if it[0] == "set":
                continue
            if it[0] == "lit":
                parts = it[1].split("\n")
                for i, t in enumerate(parts):
                    if t:
                        cur = {(s, p + (("lit", t),)) for s, p in cur}
                    if i + 1 < len(parts):
                        nx = self.new()
                        for s, p in sorted(cur, key=repr):
                            self.edge(s, p, nx)
                        cur = {(nx, ())}
            elif it[0] == "val":
                cur = {(s, p + (it,)) for s, p in cur}
            elif it[0] == "if":
                cur = self.build(it[2], cur) | self.build(it[3], cur)
            elif it[0] == "loop":
                if has_nl(it[2]):
                    out = set()
                    for s, p in sorted(cur, key=repr):
                        if p:
                            self.bad.append(it[3])
                        h = self.new()
                        if p:
                            self.edge(s, p, h)
                        else:
                            self.eps.setdefault(s, set()).add(h)
                        for s2, p2 in self.build(it[2], {(h, ())}):
                            if p2:
                                self.bad.append(it[3])
                                self.edge(s2, p2, h)
                            else:
                                self.eps.setdefault(s2, set()).add(h)
                        out.add((h, ()))
                    cur = out
                else:
                    body = tuple(flat(it[2]))
                    cur = {(s, p + (("rep", it[1], body, it[3]),)) for s, p in cur}
        return cur

    def line(self, part):
        toks = []
        node = None
        glue = False

        def add(t):
            nonlocal glue
            toks.append(t)
            glue = True
        for it in part:
            if it[0] == "lit":
                for j, w in enumerate(re.split(r"( )", it[1])):
                    if w == " ":
                        if toks and not toks[-1].sep:
                            toks[-1].sep = True
                        glue = False
                    elif w:
                        if glue and toks and toks[-1].kind == "lit":
                            toks[-1].text += w
                        else:
                            add(Tok("lit", text=w))
            elif it[0] == "val":
                node = node or it[2]
                add(Tok("val", prov=it[1], alts=it[3] if len(it) > 3 else None, node=it[2]))
            elif it[0] == "rep":
                vals = [x for x in it[2] if x[0] == "val"]
                lits = "".join(x[1] for x in it[2] if x[0] == "lit")
                if len(vals) == 1 and lits.strip() == "":
                    add(Tok("rep", prov=vals[0][1], cnt=it[1], sep=bool(lits) and it[2][-1][0] == "lit", node=vals[0][2]))
                    if lits and it[2][-1][0] != "lit" and len(toks) > 1:
                        toks[-2].sep = True
                elif len(vals) == 1:
                    add(Tok("rep", prov=vals[0][1], cnt=it[1], sep=False, node=vals[0][2]))
                else:
                    add(Tok("rep", prov=("mix", frozenset(x[1] for x in vals)), cnt=("?",), sep=it[2][-1][0] == "lit", node=vals[0][2] if vals else None))
        exact = None
        if all(x[0] == "lit" for x in part):
            exact = "".join(x[1] for x in part)
        return Line(toks, exact, node)

    def next(self, s):
        """(line id, state) reachable with one line; True if the file may end here"""
        seen, st = {s}, [s]
        out, end = [], False
        while st:
            x = st.pop()
            if x == self.final:
                end = True
            out += self.edges.get(x, [])
            for y in self.eps.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return out, end


def has_nl(tree):
    for it in tree:
        if it[0] == "lit" and "\n" in it[1]:
            return True
        if it[0] == "if" and (has_nl(it[2]) or has_nl(it[3])):
            return True
        if it[0] == "loop" and has_nl(it[2]):
            return True
    return False


def flat(tree):
    """items of a loop body without line ends; nested loops and conditions are merged"""
    out = []
    for it in tree:
        if it[0] in ("lit", "val"):
            out.append(it)
        elif it[0] == "loop":
            out += flat(it[2])
        elif it[0] == "if":
            a, b = flat(it[2]), flat(it[3])
            out += a if len(a) >= len(b) else b
    return out


# ------------------------------------------------------------------ readers
class RSt:
    """automaton position (None before the file is opened), environment, values of calls evaluated so far"""
    __slots__ = ("pos", "eof", "env", "tmp", "_k")

    def __init__(self, pos=None, eof=False, env=frozenset(), tmp=frozenset()):
        self.pos, self.eof, self.env, self.tmp = pos, eof, env, tmp
        self._k = (pos, eof, env, tmp)

    def __hash__(self):
        return hash(self._k)

    def __eq__(self, o):
        return self._k == o._k

    def get(self, k):
        for a, b in self.env:
            if a == k:
                return b
        return None

    def set(self, k, v):
        e = [x for x in self.env if x[0] != k]
        if v is not None:
            e.append((k, v))
        return RSt(self.pos, self.eof, frozenset(e), self.tmp)

    def call(self, i):
        for a, b in self.tmp:
            if a == i:
                return b
        return None

    def note(self, i, v):
        e = [x for x in self.tmp if x[0] != i]
        if v is not None:
            e.append((i, v))
        return RSt(self.pos, self.eof, self.env, frozenset(e))


def atoms(v):
    """origins in a value: [(component path, origin, precise)]"""
    if v is None or v[0] in ("c", "pos"):
        return []
    if v[0] == "t":
        return [((), p, v[2]) for p in v[1]]
    if v[0] == "vec":
        return [((), p, True) for p in v[1]]
    if v[0] == "obj":
        return [((k,) + c, p, pr) for k, x in v[1] for c, p, pr in atoms(x)]
    return []


class Reader(Inter):
    """reader of one file whose lines form the automaton; opened: test for the stream that is read (None: any)"""
    limit = 6000

    def __init__(self, P, lines, start_on=None, keep=None):
        Inter.__init__(self, P)
        self.L = lines
        self.stores = []        # (target path, origin, precise, node, frame)
        self.problems = []      # (kind, node, message)
        self.used = set()       # (line id, token index) whose value was taken
        self.taken = set()      # lines that were read
        self.start_on = start_on
        self.exits = []         # (node, state, frame)
        self.returns = []
        self.skipped_on_opaque = []
        self.missing = []       # flags never set
        self.asked = []         # (line, token, number of values asked for, node)
        self.compared = []      # literals compared with lines
        self._tracked = {}
        self.dead = {}

    # ---- which constants matter: assigned constants and tested inside a loop that reads lines
    def tracked(self, fn):
        r = self._tracked.get(fn.u)
        if r is None:
            r = set()
            loops = [n for n in fn.walk() if n.k in ("While", "For", "Do") and any(x.k == "Call" and x.name == "getline" for x in n.walk())]
            loops = loops or ([fn.body] if fn.body is not None and not any(x.k == "Call" and x.name == "getline" for x in fn.walk()) else [])
            for lp in loops:
                names = {}
                for x in lp.walk():
                    if x.k == "Assign" and x.op == "=":
                        l, v = strip(x.c[0]), strip(x.c[1])
                        if l is not None and l.k in ("Ref", "Member") and v is not None and v.cv is not None:
                            names.setdefault(self.key0(l), []).append(v.cv)
                tested = set()
                for x in lp.walk():
                    c = None
                    if x.k in ("If", "While", "Switch", "Cond"):
                        c = x.c[0]
                    if c is not None:
                        for y in c.walk():
                            if y.k in ("Ref", "Member"):
                                tested.add(self.key0(y))
                r |= set(names) & tested
            self._tracked[fn.u] = r
        return r

    def key0(self, n):
        return n.d["d"] if n.k == "Ref" and "d" in n.d else n.name

    def is_event(self, n, fn):
        return n.k == "Call" and n.name == "getline" or n.k in ("Ref", "Member") and is_str(n.t)

    def wants(self, kind, n, fn):
        return kind == "S" and n.k in ("Call", "Construct", "Assign", "Decl", "Return", "Un")

    def skip(self, g):
        if g.flag("static") and g.recn == "FFInt" or g.recn in ("Logger", "FFInt", "ShuntingYardParser", "ThreadPool", "RationalNumber", "PolynomialFF", "Polynomial", "RationalFunction"):
            return True
        if self.splitter(g):
            return True
        if any(x.k == "Decl" and any(("ifstream" in v.t or "igzstream" in v.t) and not v.t.rstrip().endswith("&") for v in x.vars) for x in g.walk()):
            return True         # reads a file of its own
        if any(x.k == "Call" and x.name == "getline" for x in g.walk()):
            return False
        # only helpers that are given a line or a value
        return not any(is_str(p.t) or "vector" in p.t for p in g.params) and not g.lam

    def splitter(self, g):
        """takes numbers off a string: (std::string& line, int count) -> vector"""
        if g.lam or g.recn or not g.params or not is_str(g.params[0].t) or "vector<" not in g.ret:
            return False
        return len(g.params) <= 2 and not unconst(g.params[0].t) == g.params[0].t + "x"

    # ---- values
    def path(self, fr, e):
        return fr.of(e)

    def rest(self, v):
        """tokens left in a line value"""
        return self.L.lines[v[1]].toks[v[2]:]

    def val(self, fr, s, e, depth=0):
        e = strip(e)
        if e is None or depth > 25:
            return None
        c = s.call((e.fn.u, e.id))
        if c is not None:
            return c
        if e.cv is not None:
            return ("c", e.cv)
        if e.k in ("Ref", "Member"):
            p = fr.of(e)
            v = s.get(p)
            if v is None and e.k == "Member" and e.c and e.c[0] is not None:
                b = strip(e.c[0])
                if b is not None and (b.k == "Sub" or b.k == "Call" and (b.op == "[]" or b.name in ("at", "get"))):
                    w = self.val(fr, s, b, depth + 1)
                    if w is not None and w[0] == "obj":
                        return dict(w[1]).get(e.name)
                    if w is not None and w[0] == "t":
                        return w
            if v is None and p[0] == "this" or v is None:
                v = self.under(s, p)
            return v
        if e.k == "Sub" or e.k == "Call" and (e.op == "[]" or e.name == "at" and e.obj is not None):
            b, i = (e.c[0], e.c[1]) if e.k == "Sub" else (e.args()[0], e.args()[1]) if e.op == "[]" else (e.obj, e.args()[0])
            v = self.val(fr, s, b, depth + 1)
            if v is not None and v[0] == "vec":
                k = strip(i)
                if k is not None and k.cv is not None and k.cv < len(v[1]) and not v[2]:
                    return ("t", (v[1][k.cv],), True)
                return ("t", v[1], True)
            if v is not None and v[0] == "t":
                return v
            p = fr.of(e)
            return s.get(p) or self.under(s, p)
        if e.k == "Construct" or e.k == "InitList":
            a = [x for x in e.args() if x.k != "DefArg"]
            t = unconst(e.t)
            if len(a) == 2 and strip(a[1]) is not None and strip(a[1]).cv is not None and ("gmp" in t or "mpz" in t):
                a = a[:1]
            vs = [self.val(fr, s, x, depth + 1) for x in a]
            if e.k == "Construct" and "pair<" in t and len(a) == 2:
                return ("obj", tuple((k, v) for k, v in (("first", vs[0]), ("second", vs[1])) if v is not None))
            if e.k == "Construct" and "tuple<" in t and len(a) > 1:
                return ("obj", tuple(("<%d>" % i, v) for i, v in enumerate(vs) if v is not None))
            if len(a) == 1 and (vs[0] is None or vs[0][0] != "s"):
                return vs[0]
            if len(a) == 1 and vs[0][0] == "s":
                return self.number(fr, s, e, vs[0], "mpz" in t or "mpz_class" in e.name) if not is_str(t) else vs[0]
            g = self.P.callee(e) or next((f for f in self.P.fns.values() if f.kind == "ctor" and f.u == e.callee), None)
            if len(a) == 2 and all(v is not None for v in vs):
                m = self.ctor_members(e)
                if m and len(m) == 2 and all(x is not None for x in m):
                    return ("obj", tuple(zip(m, vs)))
            return self.union(vs)
        if e.k == "Cond":
            return self.union([self.val(fr, s, x, depth + 1) for x in e.c[1:]])
        if e.k in ("Bin", "Un"):
            return self.blur(self.union([self.val(fr, s, x, depth + 1) for x in e.c if x is not None]))
        if e.k == "Call":
            return self.callval(fr, s, e, depth)
        return None

    def under(self, s, p):
        """value of a part of something stored as a whole, or union of parts"""
        if p[0] == "?":
            return None
        for k in range(len(p) - 1, 0, -1):
            v = s.get(p[:k])
            if v is not None:
                rest = p[k:]
                for r in rest:
                    if v is not None and v[0] == "obj":
                        v = dict(v[1]).get(r)
                    elif v is not None and v[0] == "vec":
                        v = ("t", v[1], True)
                return v
        return None

    def union(self, vs):
        at = []
        for v in vs:
            at += [p for _, p, _ in atoms(v)]
            if v is not None and v[0] == "s":
                for i, t in enumerate(self.rest(v)):
                    if t.prov is not None:
                        self.used.add((v[1], v[2] + i))
                        at.append(t.prov)
        return ("t", tuple(dict.fromkeys(at)), False) if at else None

    def blur(self, v):
        return None if v is None or v[0] == "c" else ("t", v[1], False) if v[0] == "t" else v

    def ctor_members(self, e):
        key = ("ctor", e.callee)
        if key in self.memo:
            return self.memo[key]
        out = None
        cands = [f for f in self.P.fns.values() if f.kind == "ctor" and (f.u == e.callee or (e.callee is None and f.recn == e.name))]
        if not cands:
            cands = [f for f in self.P.fns.values() if f.kind == "ctor" and f.recn == unconst(e.t).split("::")[-1] and len(f.params) == len(e.args())]
        for f in cands[:1]:
            m = []
            for pv in f.params:
                tgt = None
                for _, nm, w, ex, _ in f.inits:
                    if ex is not None and nm and any(x.k == "Ref" and x.d.get("d") == pv.d for x in ex.walk()):
                        tgt = tgt or nm
                for x in f.body.walk() if f.body is not None else ():
                    l = r = None
                    if x.k == "Assign":
                        l, r = strip(x.c[0]), x.c[1]
                    elif x.k == "Call" and x.op == "=" and len(x.args()) == 2:
                        l, r = strip(x.args()[0]), x.args()[1]
                    if l is not None and l.k == "Member" and r is not None:
                        used = {y.d.get("d") for y in r.walk() if y.k == "Ref"} & {q.d for q in f.params}
                        if used == {pv.d}:
                            tgt = tgt or l.name
                m.append(tgt)
            out = m
        self.memo[key] = out
        return out

    def take(self, v, i=0):
        """origin of the i-th token left in a line value"""
        ts = self.rest(v)
        if i < len(ts):
            self.used.add((v[1], v[2] + i))
            return ts[i].prov
        return None

    def number(self, fr, s, e, v, whole):
        """the string is converted to one number"""
        ts = self.rest(v)
        if not ts:
            self.problems.append(("align", e, "a number is read where the line written holds no further value"))
            return None
        if whole and len(ts) > 1 and not (len(v) > 3):
            self.problems.append(("align", e, "the rest of the line is read as one number, but %d values were written" % len(ts)))
        if ts[0].kind == "rep" and len(ts) == 1 and len(v) <= 3 and whole:
            self.problems.append(("align", e, "several values were written where one is read"))
        if len(ts) > 1 and len(v) <= 3 and v[2] == 0 and not whole:
            self.problems.append(("align", e, "only the first of several values in the line is read"))
        if len(ts) > 1 and not ts[0].sep:
            self.problems.append(("align", e, "values are written without a separator between them"))
        p = self.take(v)
        return ("t", (p,) if p else (), True) if p else ("c?",)

    def callval(self, fr, s, e, depth):
        a = [x for x in e.args() if not (strip(x) is not None and strip(x).k == "Ref" and strip(x).name == "npos")]
        nm = e.name
        o = self.val(fr, s, e.obj, depth + 1) if e.obj is not None else None
        if o is not None and o[0] == "s":
            if nm == "find" and a:
                return ("pos", o[1], o[2]) if self.is_sep(a[0]) else None
            if nm == "substr" and a:
                x = self.val(fr, s, a[0], depth + 1)
                if len(a) == 2 and x == ("c", 0) and self.at_end(fr, e.obj, a[1]):
                    return o
                if len(a) == 2 and x == ("c", 0):
                    y = self.val(fr, s, a[1], depth + 1)
                    if y is not None and y[0] == "pos":
                        return ("s", o[1], y[2], "one")
                p1 = strip(a[0])
                if len(a) == 1 and p1.k == "Bin" and p1.op == "+" and strip(p1.c[1]).cv == 1:
                    y = self.val(fr, s, p1.c[0], depth + 1)
                    if y is not None and y[0] == "pos":
                        return ("s", o[1], y[2] + 1)
                return None
            if nm in ("c_str", "str"):
                return o
        if nm in ("stoi", "stoul", "stoull", "stol", "stoll", "atoi", "strtoul", "strtoull") and a:
            v = self.val(fr, s, a[0], depth + 1)
            if v is not None and v[0] == "s":
                return self.number(fr, s, e, v, False)
            return v
        if nm in ("make_pair", "make_tuple", "tuple", "forward_as_tuple") and a:
            vs = [self.val(fr, s, x, depth + 1) for x in a]
            ks = ("first", "second") if nm == "make_pair" else tuple("<%d>" % i for i in range(len(a)))
            return ("obj", tuple((k, v) for k, v in zip(ks, vs) if v is not None))
        if e.obj is not None and nm in ("front", "back", "begin", "data", "size") and o is not None:
            return ("t", o[1], nm != "size") if o[0] in ("vec", "t") else o
        g = self.P.callee(e)
        if g is not None and self.splitter(g) is False and not (e.obj is not None):
            r = self.inline_val(fr, s, e, g, depth)
            if r is not None:
                return r
        vs = [self.val(fr, s, x, depth + 1) for x in a] + [o]
        return self.blur(self.union(vs))

    def is_sep(self, e):
        e = strip(e)
        while e is not None and e.k == "Construct" and e.args():
            e = strip(e.args()[0])
        if e is None:
            return False
        if e.k == "Str":
            return e.d.get("v") == " "
        if e.k == "Char":
            return int(e.d.get("v", 0)) == 32
        if e.k == "Ref":
            v = FPaths(e.fn).decls.get(e.d["d"])
            return v is not None and v.init is not None and self.is_sep(v.init)
        return False

    def inline_val(self, fr, s, e, g, depth):
        """value of a function that only computes its result"""
        rs = [x for x in g.walk() if x.k == "Return" and x.fn is g and x.c and x.c[0] is not None]
        if len(rs) != 1 or fr.depth > 8:
            return None
        sub = Frame(g, self.bind(fr, e, g), fr, e)
        t = s
        for pv, x in zip(g.params, e.args()):
            v = self.val(fr, s, x, depth + 1)
            if v is not None:
                t = t.set(("L", pv.d, pv.n), v)
                sub.paths.env.pop(pv.d, None)
        for n in g.walk():
            if n.k == "Decl" and n.fn is g:
                for v in n.vars:
                    if v.init is not None:
                        w = self.val(sub, t, v.init, depth + 1)
                        if w is not None:
                            t = t.set(("L", v.d, v.n), w)
        return self.val(sub, t, rs[0].c[0], depth + 1)

    # ---- conditions
    def truth(self, fr, s, e, depth=0):
        """True / False / None"""
        e = strip(e)
        if e is None or depth > 12:
            return None
        if e.cv is not None:
            return bool(e.cv)
        if e.k == "Un" and e.op == "!":
            r = self.truth(fr, s, e.c[0], depth + 1)
            return None if r is None else not r
        if e.k == "Call" and e.name in ("operator bool", "operator!") and (e.obj is not None or e.args()):
            x = strip(e.obj if e.obj is not None else e.args()[0])
            r = self.truth(fr, s, x, depth + 1)
            return r if e.name == "operator bool" or r is None else not r
        if e.k == "Call" and e.name == "getline":
            v = s.call((e.fn.u, e.id))
            return v[1] if v is not None else None
        if e.k in ("Bin", "Call") and e.op in ("==", "!=", "<", ">", "<=", ">="):
            a, b = (e.c[0], e.c[1]) if e.k == "Bin" else e.args()[:2]
            x, y = self.val(fr, s, a), self.val(fr, s, b)
            if x is not None and y is not None and x[0] == "c" and y[0] == "c":
                u, v = x[1], y[1]
                return {"==": u == v, "!=": u != v, "<": u < v, ">": u > v, "<=": u <= v, ">=": u >= v}[e.op]
            lit = None
            for u, w in ((x, b), (y, a)):
                q = strip(w)
                while q is not None and q.k == "Construct" and q.args():
                    q = strip(q.args()[0])
                if u is not None and u[0] == "s" and q is not None and q.k == "Str":
                    lit = (u, q.d.get("v"))
            if lit is not None and e.op in ("==", "!="):
                u, t = lit
                self.compared.append((u[1], t, e))
                ln = self.L.lines[u[1]]
                if u[2] == 0 and len(u) == 3:
                    if ln.exact is not None:
                        r = ln.exact == t
                        return r == (e.op == "==")
                    if len(ln.toks) == 1 and ln.toks[0].alts:
                        if t not in ln.toks[0].alts:
                            return e.op == "!="
                        return None
                    # values are numbers or names; they are taken not to equal a keyword
                    return e.op == "!="
            return None
        if e.k in ("Ref", "Member"):
            v = self.val(fr, s, e)
            if v is not None and v[0] == "c":
                return bool(v[1])
            if e.k == "Ref":
                r = self.all_elements(fr, s, e)
                if r is not None:
                    return r
        if e.k == "Call" and e.name == "operator bool" and e.obj is not None and strip(e.obj).k == "Ref":
            return self.all_elements(fr, s, strip(e.obj))
        return None

    def all_elements(self, fr, s, ref):
        """a loop variable over a vector of flags: True when every flag is known to be set, False when some never is"""
        p = fr.of(ref)
        if len(p) < 2 or p[-1] != "[]" or "bool" not in unconst(ref.t) and "_Bit_reference" not in ref.t:
            return None
        size = self.flags(p[:-1])
        if size is None:
            return None
        on = {k[-1] for k, v in s.env if k[:-1] == p[:-1] and v == ("c", 1)}
        on |= {k[-1] for k, v in s.env if k[:-1] == p[:-1] and v == ("c", True)}
        missing = [i for i in range(size) if "[%d]" % i not in on]
        if missing:
            self.missing.append((missing, ref))
            return False
        return True

    def flags(self, p):
        """number of elements of a member vector of flags, from its initialiser"""
        if p[0] != "this":
            return None
        for r in self.P.recs.values():
            for f in r.fields:
                if f["n"] == p[-1] and "vector<bool" in f["t"]:
                    for g in self.P.fns.values():
                        if g.kind == "ctor" and g.recn == r.n:
                            for _, nm, w, ex, _ in g.inits:
                                if nm == p[-1] and ex is not None:
                                    for x in ex.walk():
                                        if x.k == "Int" and x.cv:
                                            return x.cv
                    return None
        return None

    def edge(self, fr, B, i, st):
        c = fr.fn.cfg.test(B)
        if B.tk == "SwitchStmt" or (c is not None and len(B.s) != 2) or (c is not None and c.p is not None and B.t is not None and fr.fn.nodes.get(B.t) is not None and fr.fn.nodes[B.t].k == "Switch"):
            return self.switch(fr, B, i, st, c)
        if c is None or len(B.s) != 2:
            return st
        leaf = strip(c)
        neg = False
        leaf, neg = leaf_cond(c)
        if leaf is None:
            return st
        out = set()
        single = self.at_most_one(fr, leaf, (i == 0) != neg)
        if single is not None:
            st = frozenset(s.set(("#1",) + single, ("c", True)) for s in st)
        for s in st:
            r = self.truth(fr, s, leaf)
            if r is None:
                # getline used through a conversion
                out.add(s)
            elif (r != neg) == (i == 0):
                out.add(s)
        return frozenset(out) if out else None

    def at_most_one(self, fr, leaf, holds):
        """path of a member that is known to be at most one when the condition has this outcome"""
        if leaf.k != "Bin" or leaf.op not in ("<", "<=", ">", ">=", "==", "!="):
            return None
        l, r, op = strip(leaf.c[0]), strip(leaf.c[1]), leaf.op
        if l.cv is not None:
            l, r, op = r, l, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if r.cv is None or l.cv is not None or not holds:
            op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[op]
        if r.cv is None or l.cv is not None:
            return None
        p = fr.of(l)
        if p[0] != "this":
            return None
        if op == "<=" and r.cv <= 1 or op == "<" and r.cv <= 2 or op == "==" and 0 <= r.cv <= 1:
            return p
        return None

    def switch(self, fr, B, i, st, c):
        cond = strip(c)
        tgt = B.s[i]
        if tgt is None:
            return st
        lab = fr.fn.cfg.blocks[tgt].lb
        ln = fr.fn.nodes.get(lab) if lab is not None else None
        vals = [strip(ln.c[0]).cv if ln is not None and ln.k == "Case" else None]
        allv = set()
        for x in B.s:
            if x is None:
                continue
            l2 = fr.fn.cfg.blocks[x].lb
            n2 = fr.fn.nodes.get(l2) if l2 is not None else None
            if n2 is not None and n2.k == "Case" and strip(n2.c[0]) is not None:
                allv.add(strip(n2.c[0]).cv)
        out = set()
        for s in st:
            v = self.val(fr, s, cond)
            if v is None or v[0] != "c":
                out.add(s)
            elif ln is not None and ln.k == "Case":
                if v[1] in vals:
                    out.add(s)
            elif v[1] not in allv:
                out.add(s)
        return frozenset(out) if out else None

    # ---- events
    def event(self, fr, kind, n, st):
        if len(st) > self.limit:
            raise AnalysisError("too many states in %s" % fr.fn.q)
        if kind == "exit":
            self.exits.append((n, st, fr))
            return st
        if kind == "call" or kind != "S":
            if kind == "call":
                return self.enter_args(fr, n, st)
            return st
        if n.k == "Call" and n.name == "getline" and len(n.args()) >= 2:
            return self.getline(fr, n, st)
        if n.k == "Call" or n.k == "Construct":
            return self.docall(fr, n, st)
        if n.k == "Decl":
            out = set()
            if any(self.fresh(fr, v) for v in n.vars):
                st = frozenset(RSt(None, False, s.env, s.tmp) for s in st)
            for s in st:
                for v in n.vars:
                    if v.init is None or v.t.rstrip().endswith("&"):
                        continue
                    x = self.val(fr, s, v.init)
                    if x is not None and (x[0] != "c" or v.d in self.tracked(fr.fn)):
                        s = s.set(("L", v.d, v.n), x)
                    else:
                        s = s.set(("L", v.d, v.n), None)
                out.add(self.clean(fr, s))
            return frozenset(out)
        if n.k == "Assign":
            return frozenset(self.clean(fr, self.assign(fr, n, n.c[0], n.c[1], s, n.op)) for s in st)
        if n.k == "Return":
            for s in st:
                self.returns.append((n, s, fr))
                if n.c and n.c[0] is not None:
                    for c, p, pr in atoms(self.val(fr, s, n.c[0])):
                        self.stores.append((("ret",) + c, p, pr, n, fr))
            return st
        return st

    def clean(self, fr, s):
        return s

    def enter_args(self, fr, n, st):
        g = self.P.callee(n)
        if g is None:
            return st
        out = set()
        a = n.args()
        if g.lam and n.op == "()":
            a = a[1:]
        for s in st:
            for pv, x in zip(g.params, a):
                if pv.t.rstrip().endswith("&") and "const" not in pv.t and strip(x).k in ("Ref", "Member"):
                    continue
                v = self.val(fr, s, x)
                if v is not None:
                    s = s.set(("L", pv.d, pv.n), v)
            out.add(s)
        return frozenset(out)

    def bind(self, fr, call, g):
        p = Inter.bind(self, fr, call, g)
        # values handed over are kept in the environment of the state; only references to variables stay aliases
        a = call.args()
        if g.lam and call.op == "()":
            a = a[1:]
        for pv, x in zip(g.params, a):
            if pv.d in p.env and not (pv.t.rstrip().endswith("&") and "const" not in pv.t):
                if p.env[pv.d][0] != "this" and p.env[pv.d][0] != "L":
                    p.env.pop(pv.d)
        return p

    def fresh(self, fr, v):
        """a stream of the analysed file begins its life here"""
        return fr.up is None and "stream" in v.t and not v.t.rstrip().endswith("&") and self.start_on is not None and self.start_on(fr, v)

    def mine(self, fr, e):
        return self.start_on is None or self.start_on(fr, e)

    def getline(self, fr, n, st):
        a = n.args()
        if not self.mine(fr, a[0]):
            return st
        tgt = fr.of(a[1])
        out = set()
        for s in st:
            nxt, end = self.L.next(self.L.start if s.pos is None else s.pos)
            if s.eof:
                nxt, end = [], True
            s = RSt(s.pos, s.eof, frozenset(x for x in s.env if not self.in_loop(fr, n, x[0])), frozenset())
            for ln, to in nxt:
                self.taken.add(ln)
                t = RSt(to, False, s.env, frozenset()).set(tgt, ("s", ln, 0)).note((n.fn.u, n.id), ("c", True))
                out.add(t)
            if not nxt and not self.tested(n):
                self.problems.append(("align", n, "a line is read beyond the last one that was written"))
            if end or not nxt:
                out.add(RSt(s.pos, True, s.env, frozenset()).set(tgt, None).note((n.fn.u, n.id), ("c", False)))
        return frozenset(out)

    def tested(self, n):
        """the result of the call decides something"""
        prev = n
        for x in n.ancestors():
            if x.k in ("If", "While", "Cond", "Switch") and x.c[0] is prev or x.k == "For" and len(x.c) > 1 and x.c[1] is prev or x.k == "Do" and x.c[1] is prev:
                return True
            if x.k in ("Return", "Assign", "Decl"):
                return True
            if x.k in ("Compound", "Case", "For", "While", "If"):
                return False
            prev = x
        return False

    def in_loop(self, fr, n, key):
        """a local of the loop that reads this line (its value does not survive to the next line)"""
        if key[0] != "L":
            return False
        d = fr.paths.decls.get(key[1])
        if d is None or d.node is None:
            return False
        lp = next((x for x in n.ancestors() if x.k in ("While", "For", "Do")), None)
        return lp is not None and any(x is lp for x in d.node.ancestors())

    def docall(self, fr, n, st):
        a = [x for x in n.args() if x.k != "DefArg"]
        g = self.P.callee(n) if n.k == "Call" else None
        if n.k == "Call" and n.name == "open" and n.obj is not None and "stream" in n.obj.t and self.mine(fr, n.obj):
            return frozenset(RSt(None, False, s.env, s.tmp) for s in st)
        if g is not None and self.splitter(g):
            return self.split(fr, n, a, st)
        if n.k == "Construct":
            return st
        if n.op == "=" and len(a) == 2:
            return frozenset(self.assign(fr, n, a[0], a[1], s, "=") for s in st)
        if n.op and n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">=") and len(a) == 2:
            return frozenset(self.assign(fr, n, a[0], a[1], s, n.op) for s in st)
        if n.obj is not None and n.name in ("emplace", "emplace_back", "insert", "push_back", "push", "insert_or_assign", "emplace_hint", "assign", "push_front", "emplace_front"):
            out = set()
            ot = unconst(n.obj.t)
            if n.name == "emplace_hint":
                a = a[1:]
            for s in st:
                if "map<" in ot and len(a) == 2:
                    v = ("obj", tuple((k, x) for k, x in (("first", self.val(fr, s, a[0])), ("second", self.val(fr, s, a[1]))) if x is not None))
                elif len(a) == 1:
                    v = self.val(fr, s, a[0])
                else:
                    v = self.union([self.val(fr, s, x) for x in a])
                if v is not None and v[0] == "s":
                    v = self.union([v])
                out.add(self.store(fr, n, fr.of(n.obj) + ("[]",), v, s, grow=True))
            return frozenset(out)
        if n.obj is not None and n.name in ("erase",) and a:
            out = set()
            for s in st:
                o = self.val(fr, s, n.obj)
                if o is not None and o[0] == "s" and self.at_end(fr, n.obj, a[0]):
                    pass
                elif o is not None and o[0] == "s" and len(a) == 2:
                    y = strip(a[1])
                    y = self.val(fr, s, y.c[0]) if y.k == "Bin" and y.op == "+" and strip(y.c[1]).cv == 1 else None
                    s = s.set(fr.of(n.obj), ("s", o[1], y[2] + 1) if y is not None and y[0] == "pos" else None)
                out.add(s)
            return frozenset(out)
        if n.obj is not None and n.name in ("clear",):
            return frozenset(s.set(fr.of(n.obj), None) for s in st)
        if n.obj is not None and is_str(n.obj.t) and (n.name == "pop_back" or n.name == "resize" and a and self.at_end(fr, n.obj, a[0])):
            return st
        # values handed to methods of repository objects: stored in what the method assigns
        if n.obj is not None or g is not None:
            for s in st:
                if g is not None and not n.op and not g.flag("const"):
                    for q in self.control(fr, n, s):
                        self.stores.append((("call", n.name, None), q, False, n, fr))
                for i, x in enumerate(a):
                    v = self.val(fr, s, x)
                    for c, p, pr in atoms(v):
                        self.stores.append((("call", n.name, i) + c, p, pr, n, fr))
                    if v is not None and v[0] == "s" and not (n.name in ("find", "substr", "stoi", "stoul", "stoull", "getline", "c_str", "erase", "compare", "append", "back") or n.op):
                        for c, p, pr in atoms(self.union([v])):
                            self.stores.append((("call", n.name, i), p, False, n, fr))
        return st

    def at_end(self, fr, obj, e):
        """obj.size() - 1, obj.end() - 1 ..."""
        e = strip(e)
        while e is not None and e.k == "Construct" and len(e.args()) == 1:
            e = strip(e.args()[0])
        xs = e.c if e is not None and e.k == "Bin" and e.op == "-" else e.args() if e is not None and e.k == "Call" and e.op == "-" else None
        if e is not None and e.k == "Call" and e.op == "--" and e.args():
            xs = [e.args()[0], None]
        if e is not None and e.k == "Call" and e.name == "prev" and e.args():
            xs = [e.args()[0], None]
        if not xs:
            return False
        x = strip(xs[0])
        return x is not None and x.k == "Call" and x.name in ("size", "length", "end") and x.obj is not None and fr.of(x.obj) == fr.of(obj)

    def split(self, fr, n, a, st):
        out = set()
        for s in st:
            v = self.val(fr, s, a[0])
            if v is None or v[0] != "s":
                out.add(s)
                continue
            ts = self.rest(v)
            k = self.want(fr, n, a)
            if k is not None and k[0] == "const" and ts and ts[0].kind == "rep" and len(ts) > 1 and any(key[0] == "#1" for key, _ in s.env):
                # with a single variable the list in front is empty
                v = ("s", v[1], v[2] + 1) + v[3:]
                ts = ts[1:]
            self.asked.append((v[1], v[2], k, n))
            m, msg = self.span(ts, k)
            if msg:
                self.problems.append(("align", n, msg))
            provs = []
            for i in range(m):
                self.used.add((v[1], v[2] + i))
                if ts[i].prov is not None:
                    provs.append(ts[i].prov)
            rep = any(t.kind == "rep" for t in ts[:m])
            s = s.note((n.fn.u, n.id), ("vec", tuple(provs), rep))
            p = fr.of(a[0])
            if p[0] != "?":
                s = s.set(p, ("s", v[1], v[2] + m))
            out.add(s)
        return frozenset(out)

    def want(self, fr, n, a):
        if len(a) < 2:
            return None
        c = strip(a[1])
        while c is not None and c.k == "Construct" and len(c.args()) == 1:
            c = strip(c.args()[0])
        if c.cv is not None:
            return ("const", c.cv) if c.cv > 0 else None
        off = 0
        if c.k == "Bin" and c.op in ("+", "-") and strip(c.c[1]).cv is not None:
            off = strip(c.c[1]).cv * (1 if c.op == "+" else -1)
            c = strip(c.c[0])
        if c.k == "Call" and c.name == "size" and c.obj is not None:
            return ("size", fr.of(c.obj))
        return ("path", fr.of(c), off)

    def span(self, ts, k):
        """how many of the tokens are taken when k numbers are asked for"""
        if k is None:
            m = 0
            while m < len(ts) and ts[m].sep:
                m += 1
            if m < len(ts):
                return m, "the last value of a line is written without the separator that ends it: it is not read"
            return m, None
        if k[0] == "const":
            m, have = 0, 0
            while m < len(ts) and have < k[1]:
                t = ts[m]
                if t.kind == "rep":
                    if t.cnt[0] == "const":
                        have += t.cnt[1]
                    elif have == 0 and m == 0 and len(ts) == 1 and t.cnt[0] in ("size", "?"):
                        return 1, None
                    else:
                        return m + 1, "%d value(s) are read where a variable number was written" % k[1]
                else:
                    have += 1
                if not t.sep:
                    return m + 1, "a value is written without the separator that ends it: it is not read"
                m += 1
            if have != k[1]:
                return m, "%d values are read, %d were written" % (k[1], have)
            return m, None
        # symbolic count
        if ts and ts[0].kind == "rep":
            c = ts[0].cnt
            if not ts[0].sep:
                return 1, "a value is written without the separator that ends it: it is not read"
            if c[0] == "path" and k[0] == "path" and self.last(c[1]) == self.last(k[1]) and c[2] != k[2]:
                return 1, "%s%+d values are read, %s%+d were written" % (self.last(k[1]), k[2], self.last(c[1]), c[2])
            return 1, None
        # a prefix of single values written one by one
        m = 0
        while m < len(ts) and ts[m].sep:
            m += 1
            if m < len(ts) and ts[m].kind == "rep":
                m += 1
                break
        return m, None

    def last(self, p):
        return p[-1]

    def assign(self, fr, n, l, r, s, op):
        p = fr.of(l)
        v = self.val(fr, s, r)
        le = strip(l)
        if v is not None and v[0] == "s" and not is_str(le.t):
            v = self.union([v])
        if v is not None and v[0] == "s":
            if p[0] == "L":
                return s.set(p, v)
            v = ("t", tuple(t.prov for t in self.rest(v) if t.prov is not None), True)
            o = self.val(fr, s, r)
            for i, t in enumerate(self.rest(o)):
                self.used.add((o[1], o[2] + i))
        if op not in ("=",):
            v = self.blur(v)
        if le.k in ("Ref", "Member") and v is not None and v[0] == "c" or le.k in ("Ref", "Member") and v is None:
            if self.key0(le) in self.tracked(fr.fn) or self.key0(le) in self.extra_tracked():
                return s.set(p, v)
            if p[0] == "L":
                return s.set(p, None)
            self.plain(fr, n, p, v, s)
            return s
        # element of a map: the key is stored as well
        base = None
        if le.k == "Call" and le.op == "[]":
            base = le.args()
        elif le.k == "Sub":
            base = le.c
        if base is not None and "map<" in unconst(base[0].t):
            k = self.val(fr, s, base[1])
            for c, q, pr in atoms(k):
                self.stores.append((p + ("first",) + c, q, pr, n, fr))
            if v is not None:
                for c, q, pr in atoms(v):
                    self.stores.append((p + ("second",) + c, q, pr, n, fr))
            return s
        return self.store(fr, n, p, v, s, c=v is not None and v[0] == "c")

    def extra_tracked(self):
        return ()

    def plain(self, fr, n, p, v, s=None):
        """a member is set to something that does not come from the file, possibly depending on it"""
        self.stores.append((p, None, False, n, fr))
        if s is not None:
            for q in self.control(fr, n, s):
                self.stores.append((p, q, False, n, fr))

    def control(self, fr, n, s):
        """origins of the values that decide whether n is executed"""
        out = []
        prev = n
        for x in n.ancestors():
            c = None
            if x.k in ("If", "Cond", "While", "Switch") and x.c[0] is not prev:
                c = x.c[0]
            elif x.k == "For" and x.c[1] is not None:
                c = x.c[1]
            prev = x
            if c is None:
                continue
            for y in c.walk():
                if y.k in ("Ref", "Member", "Sub", "Call"):
                    v = self.val(fr, s, y)
                    if v is None or v[0] == "c":
                        continue
                    if v[0] == "s":
                        ts = self.rest(v)
                        if len(ts) == 1 and ts[0].alts and ts[0].prov is not None and y.k == "Ref":
                            self.used.add((v[1], v[2]))
                            out.append(ts[0].prov)
                        continue
                    out += [q for _, q, _ in atoms(v)]
        return list(dict.fromkeys(out))

    def store(self, fr, n, p, v, s, grow=False, c=False):
        if v is None or v[0] == "c":
            if v is not None and self.elem_const(fr, n, p):
                return s.set(self.elem_const(fr, n, p), v)
            if p[0] != "L":
                self.plain(fr, n, p, v, s)
            return s
        if p[0] == "L":
            base = p[:3]
            if p == base:
                return s.set(p, v)
            # part of a local: remember the union
            old = s.get(base)
            at = tuple(dict.fromkeys([q for _, q, _ in atoms(old)] + [q for _, q, _ in atoms(v)]))
            if grow and v[0] == "obj":
                return s.set(base, ("obj", (("[]", v),))) if False else s.set(base, v)
            return s.set(base, ("t", at, True) if at else None)
        for c2, q, pr in atoms(v):
            self.stores.append((p + c2, q, pr, n, fr))
        return s

    def elem_const(self, fr, n, p):
        """flags kept in a vector of booleans and set with constant indices"""
        if n.k == "Call" and n.op == "=" or n.k == "Assign":
            l = strip((n.args() if n.k == "Call" else n.c)[0])
            b = l.args() if l is not None and l.k == "Call" and l.op == "[]" else l.c if l is not None and l.k == "Sub" else None
            if b is not None and "vector<bool" in unconst(b[0].t):
                i = strip(b[1])
                if i is not None and i.cv is not None:
                    return fr.of(b[0]) + ("[%d]" % i.cv,)
        return None

    def start(self, fn, env=None):
        fr = Frame(fn, FPaths(fn, {"this": ("this",)}))
        return self.run_frame(fr, frozenset([RSt()]))
