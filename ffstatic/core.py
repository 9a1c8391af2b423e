"""Resolved program model on top of the ffdump JSON: functions, nodes, CFGs,
call graph, access paths, and a small forward dataflow engine."""
import os
import re
import heapq
from collections import defaultdict, deque
from . import dump as D

AnalysisError = D.AnalysisError
REPO = D.REPO


class Node:
    __slots__ = ("k", "id", "l", "d", "c", "p", "fn", "_t")

    def __init__(self, d, fn, parent):
        self.k = d.get("k", "?")
        self.id = d.get("i", -1)
        self.l = d.get("l", 0)
        self.d = d
        self.fn = fn
        self.p = parent
        self.c = [Node(x, fn, self) if x is not None else None for x in d.get("c", ())]
        fn.nodes[self.id] = self

    # --- attributes
    @property
    def t(self):
        return self.fn.types[self.d["t"]] if self.d.get("t", -1) >= 0 else ""

    @property
    def name(self):
        return self.d.get("n") or self.d.get("fn") or ""

    @property
    def cv(self):
        v = self.d.get("cv")
        if v is None and self.k in ("Int", "Bool", "Char"):
            v = self.d.get("v")
        return None if v is None else int(v)

    @property
    def op(self):
        return self.d.get("op")

    @property
    def callee(self):
        return self.d.get("f")

    @property
    def obj(self):
        return self.extra("obj")

    def extra(self, key):
        """lazily wrapped child stored under another key (obj, callee)"""
        d = self.d.get(key)
        if d is None:
            return None
        n = self.fn.nodes.get(d.get("i"))
        if n is None or n.d is not d:
            n = Node(d, self.fn, self)
        return n

    @property
    def vars(self):
        return [Var(v, self.fn, self) for v in self.d.get("vars", ())]

    def kids(self):
        out = []
        for key in ("callee", "obj"):
            n = self.extra(key)
            if n is not None:
                out.append(n)
        out += [x for x in self.c if x is not None]
        for v in self.d.get("vars", ()):
            i = v.get("init")
            if i is not None:
                n = self.fn.nodes.get(i.get("i"))
                if n is None or n.d is not i:
                    n = Node(i, self.fn, self)
                out.append(n)
        return out

    def walk(self):
        """pre-order (does not enter lambda bodies, which are own functions)"""
        st = [self]
        while st:
            n = st.pop()
            yield n
            st.extend(reversed(n.kids()))

    def args(self):
        return [x for x in self.c if x is not None]

    @property
    def pt(self):
        """parameter types of the resolved callee"""
        return [self.fn.types[i] if i >= 0 else "" for i in self.d.get("pt", ())]

    def ancestors(self):
        n = self.p
        while n is not None:
            yield n
            n = n.p

    def loc(self):
        return "%s:%d" % (os.path.relpath(self.fn.file, REPO), self.l)

    def __repr__(self):
        return "<%s %s @%s>" % (self.k, txt(self)[:80], self.loc())


class Var:
    def __init__(self, d, fn, node):
        self.raw = d
        self.d = d["d"]
        self.n = d["n"]
        self.t = fn.types[d["t"]] if d.get("t", -1) >= 0 else ""
        self.l = d.get("l", 0)
        self.static = bool(d.get("static"))
        self.fn = fn
        self.node = node

    @property
    def init(self):
        i = self.raw.get("init")
        if i is None:
            return None
        n = self.fn.nodes.get(i.get("i"))
        if n is None or n.d is not i:
            n = Node(i, self.fn, self.node)
        return n


class Block:
    __slots__ = ("id", "s", "e", "t", "tk", "cd", "lb", "nr", "preds")


class Fn:
    def __init__(self, d, types, tu):
        self.raw = d
        self.u = d["u"]
        self.n = d["n"]
        self.q = d["q"]
        self.file = d["file"]
        self.line = d["l"]
        self.types = types
        self.tu = tu
        self.nodes = {}
        self.rec = d.get("rec")
        self.recq = d.get("recq", "")
        self.recn = d.get("recn", "")
        self.kind = d.get("kind")
        self.lam = d.get("lam")
        self._body = None
        self._cfg = None
        self._inits = None
        self._all = None
        self._decls = None
        self.parent_fn = None   # enclosing function of a lambda
        self.lam_node = None

    @property
    def ret(self):
        return self.types[self.raw["ret"]] if self.raw.get("ret", -1) >= 0 else ""

    @property
    def params(self):
        return [Var(p, self, None) for p in self.raw.get("params", ())]

    @property
    def body(self):
        if self._body is None:
            b = self.raw.get("body")
            if b is None:
                return None
            self.inits
            self._body = Node(b, self, None)
            list(self._body.walk())   # materialise lazily wrapped children
        return self._body

    @property
    def inits(self):
        """ctor initialisers: (member usr|None, name, written, expr node|None, base type)"""
        if self._inits is None:
            self._inits = []
            for i in self.raw.get("inits", ()):
                e = i.get("e")
                n = Node(e, self, None) if e else None
                if n is not None:
                    list(n.walk())
                self._inits.append((i.get("m"), i.get("n"), bool(i.get("w")), n, self.types[i["base"]] if "base" in i else None))
        return self._inits

    def flag(self, k):
        return bool(self.raw.get(k))

    @property
    def cfg(self):
        if self._cfg is None:
            self.body
            c = self.raw.get("cfg")
            if c is None:
                return None
            self._cfg = CFG(c, self)
        return self._cfg

    def walk(self):
        if self._all is None:
            out = []
            for _, _, _, n, _ in self.inits:
                if n is not None:
                    out.extend(n.walk())
            if self.body is not None:
                out.extend(self.body.walk())
            self._all = out
        return self._all

    def loc(self):
        return "%s:%d" % (os.path.relpath(self.file, REPO), self.line)

    def __repr__(self):
        return "<Fn %s %s>" % (self.q, self.loc())


class CFG:
    def __init__(self, c, fn):
        self.fn = fn
        self.entry = c["entry"]
        self.exit = c["exit"]
        self.blocks = {}
        for b in c["b"]:
            B = Block()
            B.id = b["id"]
            B.s = b["s"]
            B.e = b["e"]
            B.t = b.get("t")
            B.tk = b.get("tk")
            B.cd = b.get("cd")
            B.lb = b.get("lb")
            B.nr = b.get("nr")
            B.preds = []
            self.blocks[B.id] = B
        self._order = None
        self._els = None
        for B in self.blocks.values():
            for s in B.s:
                if s is not None:
                    self.blocks[s].preds.append(B.id)
        self._split()

    def _split(self):
        """clang joins the paths through `a && b` before it branches when the operands
        have temporaries: give the short-circuit path a copy of the branching block, so
        that the branch itself always tests the last operand"""
        nodes = self.fn.nodes
        nid = max(self.blocks) + 1 if self.blocks else 0
        for J in list(self.blocks.values()):
            if J.id not in self.blocks or self.blocks[J.id] is not J:
                continue
            if len(J.s) != 2 or J.cd is None or J.tk == "SwitchStmt":
                continue
            c = nodes.get(J.cd)
            top = c
            # value of the condition when a short-circuited operand decides it
            pos = {}
            st = [(c, lambda v: v)]
            while st:
                x, f = st.pop()
                x = strip(x)
                if x is None:
                    continue
                if x.k == "Un" and x.op == "!":
                    st.append((x.c[0], (lambda g: lambda v: g(None if v is None else not v))(f)))
                elif x.k == "Bin" and x.op in ("&&", "||"):
                    pos[x.id] = (x, f)
                    dec = x.op == "||"
                    st.append((x.c[0], (lambda g, d: lambda v: g(v) if v == d else None)(f, dec)))
                    st.append((x.c[1], f))
            if not pos:
                continue
            while True:
                copies = {}
                for pid in list(J.preds):
                    p = self.blocks[pid]
                    if p.id == J.id or p.t not in pos or len(p.s) != 2 or p.tk != "BinaryOperator":
                        continue
                    x, f = pos[p.t]
                    k = 1 if x.op == "&&" else 0
                    if p.s[k] != J.id:
                        continue
                    v = f(x.op == "||")
                    if v is None:
                        continue
                    if v not in copies:
                        B = Block()
                        B.id = nid
                        nid += 1
                        B.s = [J.s[0 if v else 1]]
                        B.e, B.t, B.tk, B.cd, B.lb, B.nr, B.preds = J.e, None, None, None, None, J.nr, []
                        self.blocks[B.id] = B
                        copies[v] = B
                        if B.s[0] is not None:
                            self.blocks[B.s[0]].preds.append(B.id)
                    p.s = list(p.s)
                    p.s[k] = copies[v].id
                    J.preds.remove(pid)
                    copies[v].preds.append(pid)
                if len(J.preds) != 1 or J.lb is not None:
                    break
                # elements of a condition that were put into a block of their own
                p = self.blocks[J.preds[0]]
                if p.tk is not None or len([x for x in p.s if x is not None]) != 1 or p.id == J.id:
                    break
                p.e = list(p.e) + list(J.e)
                p.s, p.t, p.tk, p.cd = J.s, J.t, J.tk, J.cd
                for x in J.s:
                    if x is not None:
                        q = self.blocks[x].preds
                        q[q.index(J.id)] = p.id
                del self.blocks[J.id]
                J = p

    def order(self):
        """block id -> position in reverse post-order"""
        if self._order is None:
            seen, post = {self.entry}, []
            st = [(self.entry, iter([x for x in self.blocks[self.entry].s if x is not None]))]
            while st:
                b, it = st[-1]
                for x in it:
                    if x not in seen:
                        seen.add(x)
                        st.append((x, iter([y for y in self.blocks[x].s if y is not None])))
                        break
                else:
                    st.pop()
                    post.append(b)
            self._order = {b: i for i, b in enumerate(reversed(post))}
        return self._order

    def els(self, B):
        if self._els is None:
            self._els = {}
        r = self._els.get(B.id)
        if r is None:
            r = self._els[B.id] = list(elements(self.fn, B))
        return r

    def cond(self, B):
        """the condition of a two-way branch"""
        if B.tk == "SwitchStmt":
            return None
        return self.test(B)

    def test(self, B):
        """the condition or switch value a block ends with"""
        return self.fn.nodes.get(B.cd) if B.cd is not None else None


class Record:
    def __init__(self, d, types):
        self.raw = d
        self.u = d["u"]
        self.n = d["n"]
        self.q = d["q"]
        self.file = d["file"]
        self.line = d["l"]
        self.tn = types[d["tn"]]
        self.fields = [dict(f, t=types[f["t"]]) for f in d["fields"]]
        self.statics = [dict(f, t=types[f["t"]]) for f in d["statics"]]
        self.methods = d["methods"]
        self.bases = d["bases"]

    def loc(self):
        return "%s:%d" % (os.path.relpath(self.file, REPO), self.line)


class Global:
    def __init__(self, d, types, tu):
        self.raw = d
        self.u = d["u"]
        self.n = d["n"]
        self.q = d["q"]
        self.t = types[d["t"]]
        self.file = d["file"]
        self.line = d["l"]
        self.const = bool(d.get("const"))
        self.sm = bool(d.get("sm"))
        self.types = types
        self.nodes = {}
        self._init = None

    @property
    def init(self):
        if self._init is None and self.raw.get("init"):
            self._init = Node(self.raw["init"], self, None)
        return self._init


class Prog:
    """All functions of one configuration."""

    def __init__(self, cfg, dumps):
        self.cfg = cfg
        self.fns = {}
        self.recs = {}
        self.globals = {}
        self.enums = {}
        self.insts = set()
        self.parse_errors = []
        self.tus = []
        for (c, name), j in dumps.items():
            if c != cfg:
                continue
            self.tus.append(name)
            if j["errors"]:
                self.parse_errors.append(name)
            T = j["types"]
            for f in j["functions"]:
                u = f["u"]
                if u in self.fns:
                    if self.fns[u].file == f["file"] and self.fns[u].line == f["l"]:
                        if self.fns[u].raw.get("body") is None and f.get("body") is not None:
                            self.fns[u] = Fn(f, T, name)
                        continue
                    u = u + "@" + name
                    f = dict(f, u=u)
                self.fns[u] = Fn(f, T, name)
            for r in j["records"]:
                self.recs.setdefault(r["u"], Record(r, T))
            for g in j["globals"]:
                o = self.globals.get(g["u"])
                if o is None or (o.raw.get("init") is None and g.get("init")):
                    self.globals[g["u"]] = Global(g, T, name)
            for e in j["enums"]:
                self.enums.setdefault(e["u"], e)
            self.insts.update(j["insts"])
        self.by_q = defaultdict(list)
        self.by_n = defaultdict(list)
        for f in self.fns.values():
            self.by_q[strip_targs(f.q)].append(f)
            self.by_n[f.n].append(f)
        self.lams = {}
        for f in self.fns.values():
            if f.lam:
                self.lams.setdefault(f.lam, []).append(f)
        self._linked = False
        self._callers = None
        self._inter = {}

    # -- lambdas: link to their enclosing function
    def link(self):
        if self._linked:
            return
        self._linked = True
        for f in list(self.fns.values()):
            for n in f.walk():
                if n.k == "Lambda":
                    for g in self.lams.get(n.d["lam"], ()):
                        g.parent_fn = f
                        g.lam_node = n

    def rec_fns(self, recn):
        """all functions of a class (by unqualified class name), including lambdas inside"""
        self.link()
        out = [f for f in self.fns.values() if f.recn == recn and not f.lam]
        seen = set(x.u for x in out)
        st = list(out)
        while st:
            f = st.pop()
            for n in f.walk():
                if n.k == "Lambda":
                    for g in self.lams.get(n.d["lam"], ()):
                        if g.u not in seen:
                            seen.add(g.u)
                            out.append(g)
                            st.append(g)
        return out

    def fn(self, q, required=True):
        fs = self.by_q.get(q, [])
        if not fs and required:
            raise AnalysisError("anchor function %s not found [%s]" % (q, self.cfg))
        return fs

    def rec(self, name, required=True):
        rs = [r for r in self.recs.values() if r.n == name]
        if not rs and required:
            raise AnalysisError("anchor class %s not found [%s]" % (name, self.cfg))
        return rs

    def callee(self, node):
        """repo function(s) that a Call/Construct node resolves to"""
        if node.k not in ("Call", "Construct"):
            return None
        lam = node.d.get("lam")
        if lam:
            fs = self.lams.get(lam)
            return fs[0] if fs else None
        u = node.callee
        if u is None:
            return None
        f = self.fns.get(u)
        if f is not None and f.raw.get("body") is not None:
            return f
        return None

    def callers(self):
        if self._callers is None:
            self.link()
            m = defaultdict(list)
            for f in self.fns.values():
                for n in f.walk():
                    if n.k in ("Call", "Construct"):
                        g = self.callee(n)
                        if g is not None:
                            m[g.u].append((f, n))
            self._callers = m
        return self._callers


def unconst(t):
    """a type without its const qualifiers (and not without the end of a name like Reconst)"""
    return re.sub(r"\bconst ", "", t)


def strip_targs(q):
    out = []
    depth = 0
    i = 0
    while i < len(q):
        ch = q[i]
        if ch == "<" and not q[:i].endswith("operator") and not q[:i].endswith("operator<"):
            depth += 1
        elif ch == ">" and depth:
            depth -= 1
        elif depth == 0:
            out.append(ch)
        i += 1
    return "".join(out)


# ---------------------------------------------------------------- text
def txt(n, depth=0):
    """compact normalised rendering of an expression (for reports)"""
    if n is None:
        return ""
    if depth > 12:
        return "..."
    r = lambda x: txt(x, depth + 1)
    k = n.k
    if k in ("Int", "Bool", "Char", "Float"):
        return str(n.d.get("v"))
    if k == "Str":
        return '"%s"' % n.d.get("v")
    if k == "This":
        return "this"
    if k == "Ref":
        return n.name
    if k == "Member":
        b = n.c[0] if n.c else None
        return n.name if b is None or b.k == "This" else r(b) + "." + n.name
    if k in ("Assign", "Bin"):
        return "%s %s %s" % (r(n.c[0]), n.op, r(n.c[1]))
    if k == "Un":
        return (r(n.c[0]) + n.op) if n.d.get("post") else n.op + r(n.c[0])
    if k == "Cond":
        return "%s ? %s : %s" % tuple(r(x) for x in n.c[:3])
    if k == "Sub":
        return "%s[%s]" % (r(n.c[0]), r(n.c[1]))
    if k == "Call":
        a = n.args()
        op = n.op
        if op == "[]" and len(a) == 2:
            return "%s[%s]" % (r(a[0]), r(a[1]))
        if op and len(a) == 2 and op not in ("()", "->"):
            return "%s %s %s" % (r(a[0]), op, r(a[1]))
        if op and len(a) == 1:
            return r(a[0]) if op == "->" else op + r(a[0])
        pre = ""
        if n.obj is not None:
            pre = r(n.obj) + "." if n.obj.k != "This" else ""
        nm = n.name or (r(n.extra("callee")) if n.extra("callee") is not None else "?")
        return "%s%s(%s)" % (pre, nm, ", ".join(r(x) for x in a))
    if k in ("Construct",):
        return "%s(%s)" % (n.name, ", ".join(r(x) for x in n.args()))
    if k == "Cast":
        return r(n.c[0])
    if k == "InitList":
        return "{%s}" % ", ".join(r(x) for x in n.args())
    if k == "New":
        return "new " + n.fn.types[n.d["at"]]
    if k == "Delete":
        return "delete " + r(n.c[0])
    if k == "Throw":
        return "throw " + r(n.c[0])
    if k == "Lambda":
        return "[lambda]"
    if k == "Return":
        return "return " + (r(n.c[0]) if n.c else "")
    if k == "Decl":
        return "; ".join("%s = %s" % (v.n, r(v.init)) for v in n.vars)
    return k


# ---------------------------------------------------------------- helpers
def strip(n):
    """look through casts, copies and std::move/forward"""
    while n is not None:
        if n.k == "Cast" and n.c:
            n = n.c[0]
        elif n.k == "Construct" and (n.d.get("copy") or n.d.get("move")) and len(n.args()) >= 1:
            n = n.args()[0]
        elif n.k == "Call" and n.d.get("fq", "").startswith("std::") and n.name in ("move", "forward", "ref", "cref", "as_const") and len(n.args()) == 1:
            n = n.args()[0]
        else:
            return n
    return n


CONTAINER_ELEM = {"at", "front", "back", "operator[]"}
CONTAINER_ITER = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "lower_bound", "upper_bound", "data", "insert", "emplace", "top"}


class Paths:
    """Access paths with resolution of local reference/iterator aliases and
    (through env) of parameters bound by an inlined call."""

    def __init__(self, fn, env=None):
        self.fn = fn
        self.env = env or {}
        if fn._decls is None:
            fn._decls = {}
            for n in fn.walk():
                for v in n.vars:
                    fn._decls[v.d] = v
        self.decls = fn._decls

    def of(self, n, depth=0):
        n = strip(n)
        if n is None or depth > 25:
            return ("?",)
        k = n.k
        if k == "This":
            return self.env.get("this", ("this",))
        if k == "Member":
            if n.d.get("sm"):
                return ("S", n.d["q"])
            return self.of(n.c[0], depth + 1) + (n.name,)
        if k == "Ref":
            d = n.d["d"]
            if d in self.env:
                return self.env[d]
            if n.d.get("dk") == "global":
                return ("S", n.d["q"])
            if n.d.get("dk") in ("enum", "func"):
                return ("C", n.d["q"])
            v = self.decls.get(d)
            if v is not None and v.init is not None and self._alias(v):
                return self.of(v.init, depth + 1)
            return ("L", d, n.name)
        if k == "Sub":
            return self.of(n.c[0], depth + 1) + ("[]",)
        if k == "Un" and n.op in ("*", "&"):
            return self.of(n.c[0], depth + 1)
        if k == "Call":
            a = n.args()
            op = n.op
            if op == "[]" and a:
                return self.of(a[0], depth + 1) + ("[]",)
            if op in ("*", "->", "++", "--") and a:
                return self.of(a[0], depth + 1)
            if n.obj is not None and n.name in CONTAINER_ELEM:
                return self.of(n.obj, depth + 1) + ("[]",)
            if n.obj is not None and n.name in CONTAINER_ITER:
                return self.of(n.obj, depth + 1) + ("[]",)
            if n.obj is not None and n.name == "get" and not a:
                return self.of(n.obj, depth + 1)
            if n.d.get("fq", "").startswith("std::get") and a:
                idx = targ_index(n)
                return self.of(a[0], depth + 1) + ("<%s>" % idx,)
            if n.name in ("next", "prev") and a:
                return self.of(a[0], depth + 1)
            return ("?", n.id)
        return ("?", n.id)

    def _alias(self, v):
        """a local that denotes (part of) another object: reference, pointer, iterator"""
        t = v.t
        if t.endswith("&") or t.endswith("*") or t.endswith("* const") or t.endswith("&&"):
            return True
        if "iterator" in t or "_Rb_tree" in t and "iterator" in t:
            return True
        if v.n.startswith("__range") or v.n.startswith("__begin") or v.n.startswith("__end"):
            return True
        return False


def targ_index(n):
    """template index of a std::get<i> call, from the USR/type information"""
    ta = n.d.get("ta") or ["?"]
    return ta[0].rstrip("ULul")


def call_name(n):
    return n.name if n.k in ("Call", "Construct") else None


def is_exit(n):
    """calls that never return"""
    if n.k == "Throw":
        return True
    if n.k == "Call":
        if n.d.get("noret"):
            return True
        if n.name in ("exit", "_exit", "abort", "terminate", "quick_exit", "_Exit", "MPI_Abort"):
            return True
    return False


# ---------------------------------------------------------------- dataflow
def elements(fn, B):
    """yields (kind, payload) of a block; S -> Node"""
    for e in B.e:
        if e[0] == "S":
            n = fn.nodes.get(e[1])
            if n is not None:
                yield ("S", n)
        elif e[0] == "I":
            yield ("I", e)
        else:
            yield (e[0], e[1])


def forward(fn, init, transfer, join, edge=None, els=None, max_iter=200000):
    """Worklist forward analysis. transfer(kind, payload, state)->state (None = path ends).
    edge(block, succ_index, state)->state|None.  Returns {block id: entry state}."""
    cfg = fn.cfg
    if cfg is None:
        return {}
    order = cfg.order()
    els = els or cfg.els
    inn = {cfg.entry: init}
    wl = [(order[cfg.entry], cfg.entry)]
    queued = {cfg.entry}
    it = 0
    while wl:
        it += 1
        if it > max_iter:
            raise AnalysisError("dataflow does not converge in %s" % fn.q)
        _, b = heapq.heappop(wl)
        queued.discard(b)
        B = cfg.blocks[b]
        st = inn[b]
        for kind, pl in els(B):
            st = transfer(kind, pl, st)
            if st is None:
                break
        if st is None:
            continue
        for i, s in enumerate(B.s):
            if s is None:
                continue
            ns = edge(B, i, st) if edge else st
            if ns is None:
                continue
            if s not in inn:
                inn[s] = ns
            else:
                j = join(inn[s], ns)
                if j == inn[s]:
                    continue
                inn[s] = j
            if s not in queued:
                queued.add(s)
                heapq.heappush(wl, (order.get(s, 1 << 30), s))
    return inn


_PROGS = {}


def load(cfgs=("default",), names=None):
    """Loads configurations; names: optional set of TU names to restrict to."""
    jobs = []
    for c in cfgs:
        for n, p in D.plan(c):
            if names is None or n in names:
                jobs.append((c, n, p))
    d = D.dump(jobs)
    out = {}
    for c in cfgs:
        out[c] = Prog(c, d)
        if out[c].parse_errors:
            raise AnalysisError("parse errors in %s [%s]" % (out[c].parse_errors, c))
    return out
