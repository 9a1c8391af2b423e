"""C05: the state file written for a function and the code that resumes from it agree.

The content of every state file is derived from the code that writes it: a tree
of literal text, values (with the access path of the member they come from),
repetitions and alternatives, turned into an automaton over lines. The code
that resumes is analysed as a product of its control flow graph with this
automaton (getline advances it, comparisons with section names and the section
variable are followed), so for every value in the file the analysis knows into
which member it is put."""
TECHNIQUE = "abstract interpretation of the resume code over the file format derived from the writing code (product of CFG and line automaton, value provenance)"
NOTE = ("Decides for every line any state file can contain into which member each of its values is restored. The meaning of numbers "
        "(conversion between text and number) and the file system are not modelled.")

from ..core import *
from ..core import strip
from ..fmt import *
import sys

READER = "start_from_saved_file"
# quantities without which a resumed reconstruction cannot continue
REQUIRED = ["combined_prime", "tag_name", "done", "max_deg_num", "max_deg_den", "normalizer_deg", "normalize_to_den", "normalizer_den_num",
            "shifted_max_num_eqn", "shift", "sub_num", "sub_den", "zero_degs_num", "zero_degs_den", "g_ni", "g_di", "combined_ni", "combined_di",
            "combined_primes_ni", "combined_primes_di", "interpolations", "individual_degree_bounds"]
# what the resume code itself has to prepare, and from which restored quantity
DERIVED = {"non_solved_degs_num": "combined_ni", "non_solved_degs_den": "combined_di",
           "coef_mat_num": "non_solved_degs_num", "coef_mat_den": "non_solved_degs_den"}
PREPARED = ["curr_zi_order", "new_prime", "check_interpolation", "prime_number", "from_save_state", "num_eqn"]


def root(p):
    if p is None:
        return None
    if p[0] == "this" and len(p) > 1:
        return p[1]
    if p[0] == "S" and len(p) > 1:
        return p[1].split("::")[-1]
    return None


def roots(p):
    if p is None:
        return set()
    if p[0] == "mix":
        return {r for r in map(root, p[1]) if r}
    r = root(p)
    return {r} if r else set()


def comps(p):
    if p is None or p[0] == "mix":
        return None
    return tuple(c for c in p[2:] if c != "[]" and not (isinstance(c, str) and c.startswith("[")))


def out_streams(f):
    r = False
    for n in f.walk():
        if n.k == "Decl":
            for v in n.vars:
                t = unconst(v.t)
                if ("ofstream" in t or "ogzstream" in t) and not t.rstrip().endswith("&"):
                    r = True
    return r


def walk_tree(tree, up=()):
    for x in tree:
        yield x, up
        if x[0] == "loop":
            yield from walk_tree(x[2], up + (x,))
        elif x[0] == "if":
            yield from walk_tree(x[2], up + (x,))
            yield from walk_tree(x[3], up + (x,))


def zero_test(c, P, fn, depth=0):
    """the condition only asks whether something is zero or empty"""
    c = strip(c)
    if c is None or depth > 8:
        return False
    if c.k == "Un" and c.op == "!":
        return zero_test(c.c[0], P, fn, depth + 1)
    if c.k in ("Bin",) and c.op in ("&&", "||"):
        return all(zero_test(x, P, fn, depth + 1) for x in c.c)
    a = c.c if c.k == "Bin" else c.args() if c.k == "Call" and c.op in ("!=", "==", ">") else None
    if a and len(a) == 2:
        return any(strip(x).cv == 0 or txt(x) in ("0", "FFInt(0)") for x in a)
    if c.k == "Call" and c.name in ("empty", "zero", "size"):
        return True
    if c.k == "Ref" and "d" in c.d:
        v = VPaths(P, fn).decls.get(c.d["d"])
        if v is not None and v.init is not None and v.fn is fn:
            return zero_test(v.init, P, fn, depth + 1)
    return False


def writers(P, cls="RatReconst", where="ff_save"):
    out = []
    for f in P.fns.values():
        if f.recn == cls and f.raw.get("body") and out_streams(f):
            for r in Writer(P, f).run():
                if pat(r.path).startswith(where) and r.tree:
                    out.append((f, r))
    return out


def run(ctx):
    sys.setrecursionlimit(20000)
    P = load(("default",))["default"]
    ctx.rule("restore", "every value in the file is put back into the member it was written from, in the same component")
    ctx.rule("cross", "no value of the file is put into another saved member")
    ctx.rule("align", "the resume code cuts each line exactly as it was written (same number of fields, separators, numbers where numbers are)")
    ctx.rule("recognised", "every line that can be written is recognised on resume (never reaches the error exit, nothing is missing at the end)")
    ctx.rule("complete", "what is saved is saved completely, and every quantity a resumed reconstruction needs is among it")
    ctx.rule("resume", "resuming prepares the bookkeeping of the next field from the restored quantities")
    ctx.rule("prime", "the state is named after the field it was computed in and resumed in the next one")
    ws = writers(P)
    ctx.need("restore", len(ws), "state writers")
    rd = [f for f in P.fns.values() if f.n == READER and f.recn == "RatReconst" and f.raw.get("body")]
    if not rd:
        rd = [f for f in P.fns.values() if f.recn == "RatReconst" and f.raw.get("body") and any(n.k == "Decl" and any("igzstream" in v.t for v in n.vars) for n in f.walk())]
    ctx.need("restore", len(rd), "resume function")
    rd = rd[0]
    states = [(f, r) for f, r in ws if "/tmp/" in pat(r.path) or "/states/" in pat(r.path)]
    ctx.need("restore", len(states), "state files")
    written = set()
    for f, r in states:
        for x, _ in walk_tree(r.tree):
            if x[0] == "val":
                written |= roots(x[1])
    main = None
    for f, r in states:
        res = analyse(ctx, P, f, r, rd, written)
        if main is None or len(res["roots"]) > len(main["roots"]):
            main = res
            main["f"], main["r"] = f, r
    rec = P.rec("RatReconst", required=False)
    fields = member_names(P, "RatReconst")
    full = main["roots"]
    for q in REQUIRED:
        if q not in fields:
            ctx.notes.append("member %s no longer exists; its saving is not required by name" % q)
            continue
        ctx.check(q in full, "complete", "missing:%s" % q, main["f"].loc(), "%s is needed to continue after a resume but %s does not write it" % (q, main["f"].q))
    resume(ctx, P, rd, main, fields)
    primes(ctx, P, rd, states)


def member_names(P, cls):
    s = set()
    r = P.rec(cls, required=False)
    if r is not None:
        for x in r.raw.get("fields", []) if hasattr(r, "raw") else []:
            s.add(x.get("n"))
    for f in P.fns.values():
        if f.recn == cls:
            for n in f.walk():
                if n.k == "Member" and n.name:
                    s.add(n.name)
                elif n.k == "Ref" and n.d.get("q", "").startswith("firefly::%s::" % cls):
                    s.add(n.name)
    return s


def describe(line):
    return line.exact.strip() if line.exact is not None else repr(line)


def analyse(ctx, P, f, r, rd, written):
    L = Lines(r.tree)
    A = Reader(P, L)
    A.start(rd)
    name = f.n
    # what is stored from where
    by = {}
    consts = {}
    for t, p, pr, n, fr in A.stores:
        if p is None:
            if root(t) is not None:
                consts.setdefault((root(t), n.l), (n, fr))
            continue
        by.setdefault(p, []).append((t, pr, n, fr))
    mine = set()
    toks = {}
    for i, l in enumerate(L.lines):
        for j, t in enumerate(l.toks):
            if t.prov is not None and roots(t.prov):
                toks.setdefault(t.prov, []).append((i, j, l))
                mine |= roots(t.prov)
    ctx.need("restore", len(toks), "values in the file written by " + name)
    for p, where in sorted(toks.items(), key=lambda x: str(x[0])):
        R = roots(p)
        lab = "%s:%s" % (name, showp(p))
        st = by.get(p, [])
        hit = [s for s in st if root(s[0]) in R or (s[0][0] not in ("ret", "call") and root(s[0]) is not None and set(R) & {"is_singular_system"})]
        if not hit:
            # a value whose origin is not restored by name: it has to be used for something else than a return value only
            other = [s for s in st if s[0][0] == "ret" and s[3].fn is rd or s[0][0] == "S" or s[0][0] == "call" and P.callee(s[2]) is not None]
            need = R & set(REQUIRED)
            if p[0] == "mix" and other and not (need - {"interpolations"}):
                ctx.ok("restore", lab)
                continue
            if need or not other:
                ctx.bad("restore", lab, rd.loc(), "the value of %s that %s writes is not put back into it by %s%s" % (
                    showp(p), name, rd.n, " (it goes to %s)" % ", ".join(sorted({showp(s[0]) for s in st})) if st else ""))
                continue
            ctx.ok("restore", lab)
            continue
        c = comps(p)
        good = False
        for t, pr, n, fr in hit:
            tc = comps(t)
            if c is None or tc is None or not pr or tc == c or tc == c[:len(tc)] and not set(c[len(tc):]) & {"first", "second", "numerator", "denominator"}:
                if c is None or tc is None or tc == c[:len(tc)] or not pr:
                    good = True
        ctx.check(good, "restore", lab, hit[0][2].loc(), "%s is restored from the part %s of the saved value" % (", ".join(sorted({showp(h[0]) for h in hit})), showp(p)), what=lab)
        for t, pr, n, fr in hit:
            tc = comps(t)
            if pr and c is not None and tc is not None and tc != c[:len(tc)]:
                ctx.bad("cross", "%s:%s<-%s" % (name, showp(t), showp(p)), n.loc(), "%s is restored from %s" % (showp(t), showp(p)))
            # a restored part has to be the same part (key, value, numerator, denominator)
            if pr and c is not None and tc is not None and len(tc) < len(c) and set(c[len(tc):]) & {"first", "second", "numerator", "denominator"}:
                ctx.bad("cross", "%s:%s<-%s" % (name, showp(t), showp(p)), n.loc(), "%s is restored from its part %s" % (showp(t), showp(p)))
        for t, pr, n, fr in st:
            q = root(t)
            if pr and q is not None and q in written and q not in R:
                ctx.bad("cross", "%s:%s<-%s" % (name, showp(t), showp(p)), n.loc(), "the saved value of %s is put into %s" % (showp(p), showp(t)))
            elif pr and q is not None and q in R:
                ctx.ok("cross")
        # restored under a condition on the same line only
    # constants written over restored quantities while reading this file
    for (q, l), (n, fr) in sorted(consts.items(), key=str):
        if q in mine and q in written:
            own = any(root(t) == q and n2 is n for ss in by.values() for t, pr, n2, f2 in ss)
            if own or n.k == "Call" and n.name in ("reserve",):
                continue
            if n.k in ("Assign", "Call") and any(x[2].l < n.l for p in by for x in by[p] if root(x[0]) == q and x[3].fn is fr.fn):
                if sized(n):
                    continue
                ctx.bad("restore", "%s:over:%s" % (name, q), n.loc(), "%s is overwritten after it was restored" % q)
    for k, n, m in A.problems:
        ctx.bad("align", "%s:%s:%s" % (name, k, m[:60]), n.loc(), m)
    for i in sorted(A.taken):
        ctx.ok("align", "%s: %s" % (name, describe(L.lines[i])))
    for i, l in enumerate(L.lines):
        ctx.check(i in A.taken, "recognised", "%s:%s" % (name, describe(l)), rd.loc(), "the line %s written by %s is never read on resume" % (l, name))
    # lines that are read although they hold a value of the wrong section end in error exits only for other inputs: report missing flags
    for m, w in A.missing:
        ctx.bad("recognised", "%s:flag:%s" % (name, m), w.loc(), "a complete file written by %s is refused on resume: entry %s is never marked as read" % (name, m))
    # completeness of loops and conditions
    for x, up in walk_tree(r.tree):
        if x[0] == "loop":
            cnt, node = x[1], x[3]
            if cnt[0] in ("path", "size") and len(cnt) > 2 and cnt[2] != 0:
                ctx.bad("complete", "%s:count:%s" % (name, showp(cnt[1])), node.loc(), "the loop writes %s%+d items" % (showp(cnt[1]), cnt[2]))
            else:
                ctx.ok("complete")
            for y in node.walk():
                if y.k in ("Break", "Return", "Continue"):
                    c = next((a for a in y.ancestors() if a.k == "If"), None)
                    if c is None or not zero_test(c.c[0], P, f):
                        ctx.bad("complete", "%s:%s:%s" % (name, y.k, txt(c.c[0])[:40] if c is not None else ""), y.loc(), "the loop that saves the items can skip some of them")
        elif x[0] == "if":
            c = x[1]
            if has_val(x[2]) != has_val(x[3]) and vroots(x[2] + x[3]) & set(REQUIRED):
                ctx.check(zero_test(c, P, f) or both_written(x), "complete", "%s:if:%s" % (name, txt(c)[:50]), c.loc(),
                          "a saved quantity is only written if %s" % txt(c)[:80])
    return dict(roots=mine, A=A, L=L, by=by)


def sized(n):
    """assignment of an object of a given size (filled afterwards)"""
    r = strip((n.args() if n.k == "Call" else n.c)[-1]) if (n.args() if n.k == "Call" else n.c) else None
    return r is not None and r.k == "Construct" and len([a for a in r.args() if a.k != "DefArg"]) >= 1 and "vector" in r.t or n.k == "Call" and n.name in ("resize", "assign", "clear")


def vroots(tree):
    s = set()
    for y, _ in walk_tree(tree):
        if y[0] == "val":
            s |= roots(y[1])
    return s


def has_val(tree):
    return any(x[0] == "val" for x, _ in walk_tree(tree))


def both_written(x):
    return not (vroots(x[2]) ^ vroots(x[3]))


def reach(P, f, depth=4):
    out, todo = [], [(f, 0)]
    seen = set()
    while todo:
        g, d = todo.pop()
        if g.u in seen:
            continue
        seen.add(g.u)
        out.append(g)
        if d >= depth:
            continue
        for n in g.walk():
            if n.k in ("Call", "Construct"):
                h = P.callee(n)
                if h is not None and h.recn == f.recn:
                    todo.append((h, d + 1))
    return out


MUT = {"emplace", "insert", "push_back", "emplace_back", "erase", "clear", "fill", "assign", "resize"}


def changes(P, f):
    """[(member root, node, frame, [(origins of what is put there)])] of f and helpers of the same class, bound to their arguments"""
    A = Inter(P)
    out = []

    def visit(fr, depth):
        for n in fr.fn.walk():
            if n.fn is not fr.fn:
                continue
            t, src = None, []
            if n.k == "Assign":
                t, src = n.c[0], [n.c[1], n.c[0]]
            elif n.k == "Un" and n.op in ("++", "--"):
                t = n.c[0]
            elif n.k == "Call":
                a = n.args()
                if n.op and n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">=") and a:
                    t, src = a[0], a[1:] + [a[0]]
                elif n.op in ("++", "--") and a:
                    t = a[0]
                elif n.name in MUT and n.obj is not None:
                    t, src = n.obj, a
                elif n.name in ("fill", "iota", "copy", "transform") and a:
                    t, src = (a[0], a[1:]) if n.name in ("fill", "iota") else (a[-1], a[:-1])
                g = P.callee(n)
                if g is not None and depth < 4 and (g.recn == f.recn or g.lam):
                    p = A.bind(fr, n, g)
                    if p is not None:
                        visit(Frame(g, p, fr, n), depth + 1)
            if t is not None:
                p = fr.of(t)
                x = strip(t)
                if x is not None and x.k == "Ref" and x.d.get("dk") != "global" and "d" in x.d and x.d["d"] in fr.paths.decls:
                    v = fr.paths.decls[x.d["d"]]
                    if not v.t.rstrip().endswith("&"):
                        continue        # a local of its own (iterator)
                if root(p) is not None:
                    out.append((root(p), n, fr, src))
    visit(Frame(f, FPaths(f, {"this": ("this",)})), 0)
    return out


def resume(ctx, P, rd, main, fields):
    ch = changes(P, rd)
    by = {}
    for q, n, fr, src in ch:
        by.setdefault(q, []).append((n, fr, src))
    for q in PREPARED:
        if q not in fields:
            ctx.notes.append("member %s no longer exists" % q)
            continue
        ctx.check(q in by, "resume", "set:" + q, rd.loc(), "%s is not prepared when a reconstruction is resumed" % q)
    for q, o in sorted(DERIVED.items()):
        if q not in fields or o not in fields:
            ctx.notes.append("member %s or %s no longer exists" % (q, o))
            continue
        hit = by.get(q, [])
        if not hit:
            ctx.bad("resume", "derive:" + q, rd.loc(), "%s is not rebuilt from %s on resume" % (q, o))
            continue
        other = {a for a in DERIVED.values() if a != o} | {a for a in DERIVED if a != q and a != o}
        for n, fr, src in hit:
            prov = sources(P, fr, n, src)
            ok = o in prov or q in ("coef_mat_num", "coef_mat_den") and DERIVED.get(o) in prov
            if not prov:
                ctx.notes.append("%s: origin of what is put into %s not known" % (n.loc(), q))
                continue
            wrong = {x for x in prov if x in other and not (q.startswith("coef_mat") and x == DERIVED.get(o))}
            ctx.check(ok and not wrong, "resume", "derive:%s" % q, n.loc(), "%s is rebuilt from %s instead of %s" % (q, ", ".join(sorted(prov)), o), what="%s from %s" % (q, o))
    if "new_prime" in fields and "curr_zi_order" in fields:
        A = Started(P)
        A.run(rd, frozenset([(None, None, False)]))
        for n, st in A.ends:
            bad = [s for s in st if s[2] and s[0] != 1 or s[0] == 0 and s[1] != 1]
            ctx.check(not bad, "resume", "new_prime", n.loc(), "on a path to this return the resumed reconstruction is neither finished nor starts a new field (new_prime)")
    if "from_save_state" in fields:
        ctx.check(any(n.k == "Assign" and strip(n.c[1]).cv == 1 for n, _, _ in by.get("from_save_state", [])), "resume", "from_save_state=true", rd.loc(), "a resumed reconstruction is not marked as resumed")


class Started(Inter):
    """(last constant given to new_prime, last constant given to done, order of zi restarted)"""

    def __init__(self, P):
        Inter.__init__(self, P)
        self.ends = []

    def join(self, a, b):
        return a | b

    def is_event(self, n, fn):
        return n.k in ("Ref", "Member") and n.name in ("new_prime", "done", "curr_zi_order")

    def wants(self, kind, n, fn):
        return kind == "S" and n.k in ("Assign", "Call", "Return")

    def event(self, fr, kind, n, st):
        if kind != "S":
            return st
        if n.k == "Assign":
            q = root(fr.of(n.c[0]))
            i = {"new_prime": 0, "done": 1}.get(q)
            if i is not None:
                v = strip(n.c[1]).cv
                return frozenset(tuple(v if j == i else x for j, x in enumerate(s)) for s in st)
        if n.k == "Call" and n.name in ("fill", "assign") or n.k == "Call" and n.op == "=":
            t = n.obj if n.obj is not None and n.op != "=" else n.args()[0] if n.args() else None
            if t is not None and root(fr.of(t)) == "curr_zi_order" or any(root(fr.of(x)) == "curr_zi_order" for a in n.args()[:1] for x in a.walk()):
                return frozenset((s[0], s[1], True) for s in st)
        if n.k == "Return" and fr.up is None:
            self.ends.append((n, st))
        return st


def sources(P, fr, n, src):
    """member roots the put value comes from: through arguments, locals and loops over containers"""
    out = set()
    seen = set()

    def go(fr, e, depth):
        if e is None or depth > 12:
            return
        for x in e.walk():
            if x.k in ("Ref", "Member"):
                p = fr.of(x)
                if root(p) is not None:
                    out.add(root(p))
                    continue
                if x.k == "Ref" and "d" in x.d:
                    k = (id(fr), x.d["d"])
                    if k in seen:
                        continue
                    seen.add(k)
                    env = fr.paths.env.get(x.d["d"]) if hasattr(fr.paths, "env") else None
                    if env is not None and root(env) is not None:
                        out.add(root(env))
                    v = fr.paths.decls.get(x.d["d"])
                    if v is not None and v.init is not None:
                        go(fr, v.init, depth + 1)
                    # element of a range-based loop
                    for y in fr.fn.walk():
                        if y.k == "ForRange" and y.c[0] is not None and any(w.d == x.d["d"] for w in y.c[0].vars):
                            for w in (y.c[1].vars if y.c[1] is not None else []):
                                go(fr, w.init, depth + 1)
                    # parameter: argument of the call
                    for i, pv in enumerate(fr.fn.params):
                        if pv.d == x.d["d"] and fr.call is not None:
                            a = fr.call.args()
                            if fr.fn.lam and fr.call.op == "()":
                                a = a[1:]
                            if i < len(a):
                                go(fr.up, a[i], depth + 1)
    for e in src:
        go(fr, e, 0)
    return out


def primes(ctx, P, rd, states):
    # the name carries prime_number
    for f, r in states:
        vals = [x for x in r.path if x[0] == "val"]
        ctx.check(any("prime_number" in roots(x[1]) and (x[1][0] != "mix") for x in vals), "prime", "%s:name" % f.n, r.node.loc(),
                  "the state file written by %s is not named after the current field number" % f.n)
    # resumed in the next field
    ok = False
    hit = None
    for q, n, fr, src in changes(P, rd):
        if q == "prime_number" and n.k == "Assign":
            e = strip(n.c[1])
            if e.cv is not None:
                continue
            hit = n
            if e.k == "Ref" and "d" in e.d:
                v = fr.paths.decls.get(e.d["d"])
                if v is not None and v.init is not None:
                    e = strip(v.init)
            if e.k == "Bin" and e.op == "+" and sorted([strip(x).cv or 0 for x in e.c])[-1] == 1:
                ok = True
    plus = any(n.k == "Un" and n.op == "++" or n.k == "Assign" and n.op == "+=" and strip(n.c[1]).cv == 1 for q, n, fr, src in changes(P, rd) if q == "prime_number")
    ctx.check(ok or plus, "prime", "resume+1", (hit or rd).loc() if hit is not None else rd.loc(), "a resumed reconstruction does not continue in the field after the saved one")
    # saved before the field number advances
    sv = {f.u for f, r in states if "/tmp/" in pat(r.path)}
    for f in P.fns.values():
        if f.recn != "RatReconst" or f.cfg is None:
            continue
        calls = [n for n in f.walk() if n.k == "Call" and P.callee(n) is not None and P.callee(n).u in sv and n.fn is f]
        if not calls:
            continue
        paths = FPaths(f, {"this": ("this",)})

        def tr(kind, n, s):
            if kind == "S" and (n.k == "Un" and n.op in ("++", "--") or n.k == "Assign"):
                p = paths.of(n.c[0])
                if root(p) == "prime_number":
                    return True
            if kind == "S" and n.k == "Call" and P.callee(n) is not None and P.callee(n).recn == f.recn and increments(P, P.callee(n)):
                return True
            if kind == "S" and n in calls and s:
                bad.append(n)
            return s
        bad = []
        forward(f, False, tr, lambda a, b: a or b)
        ctx.check(not bad, "prime", "%s:before" % f.n, (bad or calls)[0].loc(), "the state is saved after the field number has advanced: it is filed under a field it was not computed in")


_inc = {}


def increments(P, g, depth=0):
    if g.u in _inc:
        return _inc[g.u]
    _inc[g.u] = False
    r = False
    paths = FPaths(g, {"this": ("this",)})
    for n in g.walk():
        if n.fn is g and (n.k == "Un" and n.op in ("++", "--") or n.k == "Assign") and root(paths.of(n.c[0])) == "prime_number":
            r = True
    _inc[g.u] = r
    return r
