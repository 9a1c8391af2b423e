"""C06: auxiliary save files are read back the way they are written.

Uses the same machinery as C05: every function that writes a file below
ff_save is turned into a line automaton, every function that opens a matching
file for reading is run over it."""
TECHNIQUE = "abstract interpretation of the reading code over the file formats derived from the writing code; ordering by typestate dataflow"
NOTE = ("Covers anchor points, shift, variable order, validation values, factors and stored probes. Whether the file system keeps what was written "
        "is not modelled; directories and file names are compared as patterns.")

from ..core import *
from ..core import strip
from ..fmt import *
from .c05 import root, roots, comps, walk_tree, changes, zero_test, out_streams
import re, sys

CONFIGS = ("default", "flint")


def in_decls(f):
    out = {}
    for n in f.walk():
        if n.k == "Decl" and n.fn is f:
            for v in n.vars:
                t = unconst(v.t)
                if ("ifstream" in t or "igzstream" in t) and not t.rstrip().endswith("&"):
                    out[v.d] = (v, n)
    return out


def opened(P, f, decls):
    """[(decl, path expression, node)]"""
    out = []
    for d, (v, n) in decls.items():
        i = strip(v.init) if v.init is not None else None
        if i is not None and i.k == "Construct":
            a = [x for x in i.args() if x.k != "DefArg"]
            if a and "stream" not in unconst(a[0].t).split("<")[0]:
                out.append((d, a[0], n))
    for n in f.walk():
        if n.k == "Call" and n.name == "open" and n.obj is not None and strip(n.obj).k == "Ref" and strip(n.obj).d.get("d") in decls and n.args():
            out.append((strip(n.obj).d["d"], n.args()[0], n))
    return out


def path_pattern(P, f, e, depth=0):
    """patterns of a file name expression; parameters are followed to the callers, containers to what is put into them"""
    w = Writer(P, f)
    items = w.sval(e)
    if len(items) == 1 and items[0][0] == "val" and depth < 4:
        p = items[0][1]
        x = strip(items[0][2]) if items[0][2] is not None else None
        out = []
        if p[0] == "L":
            for i, pv in enumerate(f.params):
                if pv.d == p[1]:
                    for g, c in P.callers().get(f.u, ()):
                        a = c.args()
                        if i < len(a):
                            out += path_pattern(P, g, a[i], depth + 1)
            for n in f.walk():
                if n.k == "Call" and n.name in ("emplace_back", "push_back") and n.obj is not None and w.paths.of(n.obj)[:2] == p[:2] and n.args():
                    out += path_pattern(P, f, n.args()[0], depth + 1)
        elif p[0] == "this" and p[-1] == "[]":
            q = p[:-1]
            for g in P.fns.values():
                if g.recn == f.recn:
                    for n in g.walk():
                        if n.k == "Call" and n.name in ("emplace_back", "push_back") and n.obj is not None and FPaths(g, {"this": ("this",)}).of(n.obj) == q and n.args():
                            out += path_pattern(P, g, n.args()[0], depth + 1)
        return out or ["*"]
    return [pat(items)]


def unify(a, b):
    rx = lambda s: "".join(".*" if c == "*" else re.escape(c) for c in s)
    return bool(re.fullmatch(rx(a), b.replace("*", "7")) or re.fullmatch(rx(b), a.replace("*", "7")))


def is_aux(p):
    return p.startswith("ff_save/") and not p.startswith(("ff_save/states", "ff_save/tmp"))


def words(p):
    return [c for c in (p[1:] if p else ()) if c in ("numerator", "denominator")]


def setroots(P, call):
    g = P.callee(call)
    if g is None:
        return set()
    out = set()
    ps = {pv.d for pv in g.params}
    for q, n, fr, src in changes(P, g):
        used = {x.d.get("d") for e in src for x in e.walk() if x.k == "Ref"}
        # set from a parameter (possibly inside a loop or after a comparison)
        if used & ps or fr.fn is not g:
            out.add(q)
    return out


def names(p):
    if p is None:
        return set()
    if p[0] == "mix":
        return set().union(*[names(x) for x in p[1]]) if p[1] else set()
    return {str(c).split("::")[-1] for c in p[1:]}


def run(ctx):
    sys.setrecursionlimit(20000)
    PP = load(CONFIGS)
    ctx.rule("paired", "every auxiliary file that is read is written under the same name, and every one that is written is read")
    ctx.rule("align", "the reader cuts each line exactly as it was written (fields, separators, number of lines)")
    ctx.rule("restore", "each value is put back where it was taken from, component by component")
    ctx.rule("named", "files of one function or one field are named after it")
    ctx.rule("tuple", "stored and live probes use the same component order")
    ctx.rule("before", "a new anchor point or shift is written before probes that depend on it are started")
    done = set()
    nw = nr = 0
    for cfg in CONFIGS:
        P = PP[cfg]
        ws, rs = [], []
        seen = set()
        for f in P.fns.values():
            if not f.raw.get("body") or not f.q.startswith("firefly::") or f.loc() in seen:
                continue
            if out_streams(f):
                seen.add(f.loc())
                for r in Writer(P, f).run():
                    p = pat(r.path)
                    if is_aux(p):
                        ws.append((f, r, p))
            d = in_decls(f)
            if d:
                seen.add(f.loc())
                for dd, e, n in opened(P, f, d):
                    for p in path_pattern(P, f, e):
                        if is_aux(p):
                            rs.append((f, dd, p, n))
        nw, nr = max(nw, len(ws)), max(nr, len(rs))
        pairs(ctx, P, cfg, ws, rs, done)
        tuples(ctx, P, done)
        before(ctx, P, done, ws)
    ctx.need("paired", nw, "writers of auxiliary files")
    ctx.need("paired", nr, "readers of auxiliary files")


def content(f, d, P):
    """does the function take lines from this stream (directly or in a helper)?"""
    for n in f.walk():
        if n.k == "Call" and n.args():
            a = [strip(x) for x in n.args()]
            if n.name == "getline" and a[0].k == "Ref" and a[0].d.get("d") == d:
                return True
            g = P.callee(n)
            if g is not None and any(x is not None and x.k == "Ref" and x.d.get("d") == d for x in a):
                return True
    return False


def pairs(ctx, P, cfg, ws, rs, done):
    for f, d, p, n in rs:
        if ("r", f.loc(), p) in done:
            continue
        m = [w for w in ws if unify(w[2], p)]
        if not m and cfg == "default" and "flint" in CONFIGS:
            continue            # written in the other configuration (factors)
        done.add(("r", f.loc(), p))
        ctx.check(bool(m), "paired", "read:%s:%s" % (f.n, p), n.loc(), "%s is read here but nothing writes a file of this name" % p)
    seenp = {}
    for f, r, p in ws:
        rd = [x for x in rs if unify(x[2], p)]
        if ("w", f.loc(), p, r.node.l) not in done and (rd or cfg == CONFIGS[-1]):
            done.add(("w", f.loc(), p, r.node.l))
            ctx.check(bool(rd), "paired", "write:%s:%s" % (f.n, p), r.node.loc(), "%s is written here but never read back" % p)
            named(ctx, P, f, r, p)
        if not any(x[0] in ("val", "lit") and (x[0] == "val" or x[1].strip()) for x, _ in walk_tree(r.tree)):
            continue
        cr = [x for x in rd if content(x[0], x[1], P)]
        if rd and not cr and not any(x[0].loc() for x in rd if content(x[0], x[1], P)):
            ctx.bad("paired", "content:%s:%s" % (f.n, p), r.node.loc(), "the content of %s is never read back" % p)
        for g, d, q, n in cr:
            k = (f.loc(), r.node.l, g.loc(), n.l)
            if k in done:
                continue
            done.add(k)
            compare(ctx, P, f, r, p, g, d)
        if p.startswith("ff_save/validation") and ("v", f.loc()) not in done:
            done.add(("v", f.loc()))
            same_probe(ctx, P, f, r)


def same_probe(ctx, P, f, r):
    """the validation values belong to the point they are stored with: same position in the list of points and in the list of values"""
    pts, vals = {}, {}
    for n in f.walk():
        if n.k == "Call" and n.op == "[]" and len(n.args()) == 2:
            i = strip(n.args()[1])
            if i is None or i.cv is None:
                continue
            b = strip(n.args()[0])
            if b.k == "Call" and b.op == "[]":
                b2 = strip(b.args()[0])
                if any(x[0] == "val" and b2 is not None and b2.name in names(x[1]) for x, _ in walk_tree(r.tree)):
                    vals.setdefault(i.cv, n)
            elif any(x[0] == "val" and x[1][0] == "mix" and b.name in names(x[1]) for x, _ in walk_tree(r.tree)) and b.name not in ("shift",) and unconst(b.t).startswith("std::vector"):
                a = next((x for x in n.ancestors() if x.k in ("Bin", "Call") and x.op == "+"), None)
                if a is not None:
                    pts.setdefault(i.cv, n)
    if pts and vals:
        ctx.check(set(pts) == set(vals), "restore", "validation:%s" % f.n, list(vals.values())[0].loc(), "the validation file holds point number %s but values number %s" % (sorted(pts), sorted(vals)))
    else:
        ctx.notes.append("which probe the validation file holds is not decided")


def compare(ctx, P, f, r, p, g, d):
    L = Lines(r.tree)

    def mine(fr, e):
        if isinstance(e, Var):
            return e.d == d
        q = fr.of(e)
        return q[0] == "L" and q[1] == d
    A = Reader(P, L, mine)
    A.start(g)
    name = "%s:%s->%s" % (p, f.n, g.n)
    for k, n, m in A.problems:
        ctx.bad("align", "%s:%s" % (name, m[:60]), n.loc(), "%s: %s" % (p, m))
    for i, l in enumerate(L.lines):
        ctx.check(i in A.taken, "align", "%s:%s" % (name, l.exact.strip() if l.exact is not None else "values"), g.loc(), "the line %s of %s is never read" % (l, p))
    writ = set()
    for l in L.lines:
        for t in l.toks:
            writ |= names(t.prov)
    by = {}
    for t, q, pr, n, fr in A.stores:
        if q is not None:
            by.setdefault(q, []).append((t, pr, n, fr))
    tail(ctx, P, L, g, d, name, p, A)
    for i, l in enumerate(L.lines):
        for j, t in enumerate(l.toks):
            if t.prov is None:
                continue
            lab = "%s:%s" % (name, showp(t.prov))
            st = by.get(t.prov, [])
            if (i, j) not in A.used and not st:
                ctx.bad("restore", lab, g.loc(), "%s: the value of %s is not used by %s" % (p, showp(t.prov), g.n))
                continue
            R = roots(t.prov)
            nm = names(t.prov)
            hit = other = 0
            for tg, pr, n, fr in st:
                q = root(tg)
                if q is not None and q in R:
                    hit += 1
                    if pr:
                        ctx.check(comp_ok(tg, t.prov, l), "restore", lab + "->" + showp(tg), n.loc(), "%s is read into %s" % (showp(t.prov), showp(tg)))
                elif tg[0] == "call":
                    s = setroots(P, n)
                    if s and s & nm:
                        hit += 1
                    elif s and pr and s & writers_roots(writ, R):
                        other += 1
                        ctx.bad("restore", lab, n.loc(), "%s: the value of %s is given to %s, which sets %s" % (p, showp(t.prov), n.name, ", ".join(sorted(s))))
                    elif s and pr and R and n.name.startswith("set_") and P.callee(n) is not None and P.callee(n).recn in ("RatReconst",):
                        other += 1
                        ctx.bad("restore", lab, n.loc(), "%s: the value of %s is given to %s, which sets %s" % (p, showp(t.prov), n.name, ", ".join(sorted(s))))
                elif tg[0] in ("ret", "this") and pr:
                    tw, pw = words(tg), words(t.prov)
                    tc = [c for c in tg[1:] if isinstance(c, str) and re.fullmatch(r"<\d+>", c)]
                    pc = [c for c in t.prov if isinstance(c, str) and re.fullmatch(r"<\d+>", c)]
                    if len(tw) > 0 and pw and len(tg) > 2:
                        ctx.check(tw == pw, "restore", lab + "->" + ".".join(map(str, tg)), n.loc(), "%s: %s is read into %s" % (p, showp(t.prov), ".".join(map(str, tg[1:]))))
                    if tc and pc:
                        ctx.check(tc == pc, "restore", lab + "->" + showp(tg), n.loc(), "%s: component %s of a saved probe is read into component %s" % (p, pc[0], tc[0]))
            if not other:
                ctx.ok("restore", lab)
            # a member that was saved has to be set again
            need = [x for x in R if x not in ("n", "items", "i")]
            if need and t.prov[0] != "mix" and not hit and not other and "restore-opt" not in p and t.prov[0] in ("this", "S") and st and all(s[0][0] in ("call",) and not setroots(P, s[2]) for s in st) and not any(s[0][0] == "call" and (s[2].name in ("eval",) or s[2].op) for s in st):
                ctx.notes.append("%s: where %s is put is not known" % (g.loc(), showp(t.prov)))
    probes_ret(ctx, P, g, A, L, name, p)
    # the list of indices in front of a probe has as many entries as an order vector of the class
    ln = order_length(P)
    if ln is not None:
        for i, j, k, n in A.asked:
            t = L.lines[i].toks[j] if j < len(L.lines[i].toks) else None
            if t is not None and t.kind == "rep" and t.prov is not None and "<2>" in t.prov and t.cnt[0] == "size" and k is not None and k[0] == "path" and k[1][-1] == "n":
                ctx.check(k[2] == ln, "align", "%s:order" % name, n.loc(), "n%+d indices are read, n%+d were written" % (k[2], ln))


def order_length(P):
    """offset k such that the order vectors of RatReconst have n+k entries"""
    ks = set()
    for f in P.fns.values():
        if f.recn != "RatReconst":
            continue
        for n in f.walk():
            l = r = None
            if n.k == "Call" and n.op == "=" and len(n.args()) == 2:
                l, r = n.args()
            if l is None or root(FPaths(f, {"this": ("this",)}).of(l)) != "curr_zi_order":
                continue
            r = strip(r)
            if r.k == "Construct" and len([a for a in r.args() if a.k != "DefArg"]) >= 1 and "vector" in r.t:
                a = strip(r.args()[0])
                if a.k == "Bin" and a.op in ("+", "-") and strip(a.c[1]).cv is not None and strip(a.c[0]).name in ("n", "n_"):
                    ks.add(strip(a.c[1]).cv * (1 if a.op == "+" else -1))
                elif a.name in ("n", "n_"):
                    ks.add(0)
    return ks.pop() if len(ks) == 1 else None


def writers_roots(writ, R):
    return writ - R


def comp_ok(tg, prov, line):
    if prov[0] == "mix":
        return True
    tc, pc = comps(tg), comps(prov)
    if tc == pc or tc == ("second",) and pc == () or tc == pc[:len(tc)] and not set(pc[len(tc):]) & {"first", "second"}:
        return True
    return False


def probes_ret(ctx, P, g, A, L, name, p):
    """tuples in the file: the orientation in which they are put elsewhere (pairs, set of known t) is the same everywhere"""
    for t, q, pr, n, fr in A.stores:
        if q is None or not pr or q[0] != "L":
            continue
        pc = [c for c in q if isinstance(c, str) and re.fullmatch(r"<\d+>", c)]
        if not pc:
            continue
        if t[-1] in ("first", "second") and t[0] == "this":
            ctx.check({"first": "<0>", "second": "<1>"}[t[-1]] == pc[0] or pc[0] == "<2>" and t[-1] == "first" and len(t) < 5, "restore", "%s:%s<-%s" % (name, showp(t), pc[0]), n.loc(),
                      "component %s of a saved probe is put into %s" % (pc[0], showp(t)))
        if t == ("ret",):
            ctx.check(pc[0] != "<1>", "restore", "%s:ret<-%s" % (name, pc[0]), n.loc(), "the values of saved probes are handed out as if they were their arguments")


def tail(ctx, P, L, g, d, name, p, A):
    """literal text glued to the end of a line that is a value has to be removed by the reader"""
    tails = set()
    for l in L.lines:
        if l.exact is None and l.toks and l.toks[-1].kind == "lit" and not any(t.sep for t in l.toks):
            tails.add(l.toks[-1].text)
    if not tails:
        return
    common = ""
    t0 = sorted(tails)[0]
    for k in range(1, len(t0) + 1):
        if all(t.endswith(t0[-k:]) for t in tails):
            common = t0[-k:]
        else:
            break
    common = "".join(c for c in common if c not in ")")
    pops, others = 0, 0
    seen = set()
    todo = [g]
    while todo:
        h = todo.pop()
        if h.u in seen:
            continue
        seen.add(h.u)
        for n in h.walk():
            if n.k == "Call" and n.obj is not None and is_str(n.obj.t):
                if n.name == "pop_back":
                    pops += 1
                elif n.name in ("substr", "erase", "resize"):
                    others += 1
            if n.k == "Call":
                x = P.callee(n)
                if x is not None and any(strip(y) is not None and strip(y).k == "Ref" and strip(y).d.get("d") == d for y in n.args()):
                    todo.append(x)
    if others:
        ctx.notes.append("%s: how the end of the line is removed is not decided" % g.loc())
    else:
        ctx.check(pops == len(common), "align", "%s:tail" % name, g.loc(), "lines of %s end with '%s', the reader removes %d character(s)" % (p, common, pops))


def named(ctx, P, f, r, p):
    vals = [x for x in r.path if x[0] == "val"]
    if "*" not in p:
        return
    if p.startswith("ff_save/probes"):
        ok = len(vals) == 2 and any(w in names(vals[1][1]) for w in ("prime_number", "prime_it"))
        ctx.check(ok, "named", "%s:%s" % (f.n, p), r.node.loc(), "probe files are named <function>_<field number>; this one is not")
    else:
        ok = len(vals) == 1 and vals[0][1][-1] in ("first",) or len(vals) == 1 and vals[0][1][0] in ("L", "this")
        ctx.check(ok, "named", "%s:%s" % (f.n, p), r.node.loc(), "the file is not named after the function it belongs to")
        # content and name belong to the same element
        c = [x[1] for x, _ in walk_tree(r.tree) if x[0] == "val" and x[1][0] in ("this",) and len(x[1]) > 2]
        if vals and vals[0][1][0] == "this" and c:
            base = vals[0][1][:-1]
            ctx.check(all(x[:len(base)] == base for x in c), "named", "%s:%s:content" % (f.n, p), r.node.loc(), "the file is named after %s but holds values of another element" % showp(vals[0][1]))


def tuples(ctx, P, done):
    """queue of values to feed and values to be saved: same component order; pairs read back are fed in the order they were stored"""
    for f in P.fns.values():
        if f.recn != "RatReconst" or not f.raw.get("body"):
            continue
        q, s = [], []
        for n in f.walk():
            if n.k == "Call" and n.name in ("emplace", "push") and n.obj is not None and n.args():
                r = root(FPaths(f, {"this": ("this",)}).of(n.obj))
                if r in ("queue", "saved_food"):
                    a = strip(n.args()[0])
                    xs = None
                    if a.k == "Call" and a.name == "make_tuple" or a.k == "Construct" and len(a.args()) == 3:
                        xs = [txt(strip(y)) for y in a.args()]
                        ys = a.args()
                    elif len(n.args()) == 3:
                        xs = [txt(strip(y)) for y in n.args()]
                        ys = n.args()
                    if xs:
                        (q if r == "queue" else s).append((tuple(xs), n, ys))
        if s and q:
            for x, n, _ in s:
                near = [y for y in q if sorted(y[0]) == sorted(x)]
                if near and ("t", n.l) not in done:
                    done.add(("t", n.l))
                    ctx.check(any(y[0] == x for y in near), "tuple", "%s:%s" % (f.n, ",".join(x)), n.loc(), "a probe is saved as (%s) but fed as (%s)" % (", ".join(x), ", ".join(near[0][0])))
        for x, n, ys in q:
            w = VPaths(P, f, {"this": ("this",)})
            ps = [w.of(y) for y in ys]
            if any("parsed_probes" in names(p) for p in ps[:2]) and ("t", n.l) not in done:
                done.add(("t", n.l))
                ctx.check(ps[0][-1] == "first" and ps[1][-1] == "second", "tuple", "%s:resume" % f.n, n.loc(), "stored probes are fed as (%s, %s)" % (showp(ps[0]), showp(ps[1])))


CHANGE = {"set_anchor_points": "anchor_points", "generate_anchor_points": "anchor_points", "set_shift": "shift", "set_zi_shift": "shift", "disable_shift": "shift"}


def before(ctx, P, done, ws):
    files = {}
    for f, r, p in ws:
        for w in ("anchor_points", "shift"):
            if p == "ff_save/" + w:
                files.setdefault(f.u, {}).setdefault(w, []).append(r.node)
    helpers = set(files)
    starters = {f.u for f in P.fns.values() if f.recn == "Reconstructor" and f.n in ("queue_new_job", "start_probe_jobs", "append_to_job_queue", "send_first_jobs")}
    for u, ff in files.items():
        f = P.fns[u]
        if f.cfg is None or ("b", f.loc()) in done:
            continue
        done.add(("b", f.loc()))
        paths = FPaths(f, {"this": ("this",)})
        bad = []
        n_ev = [0]

        def starts(n):
            g = P.callee(n)
            return g is not None and g.recn == "Reconstructor" and (g.u in starters or g.n in ("start_new_job", "queue_new_ones", "start_probe_jobs", "append_to_job_queue"))

        def tr(kind, n, s):
            if kind != "S" or n.k != "Call":
                return s
            g = P.callee(n)
            if g is not None and g.recn == "RatReconst" and g.n in CHANGE and n.obj is not None and root(paths.of(n.obj)) == "tmp_rec":
                n_ev[0] += 1
                return s | {CHANGE[g.n]}
            for w, ns in ff.items():
                if any(n is x or n.l == x.l and n.name == "open" for x in ns):
                    return s - {w}
            if starts(n) and s & set(ff):
                bad.append((n, s & set(ff)))
            return s

        def edge(B, i, s):
            c = f.cfg.cond(B)
            if c is None or len(B.s) != 2:
                return s
            from ..inter import leaf_cond
            l, neg = leaf_cond(c)
            if l is not None and l.k in ("Ref", "Member") and root(paths.of(l)) == "save_states" and ((i == 0) == neg):
                return frozenset()
            return s
        forward(f, frozenset(), tr, lambda a, b: a | b, edge)
        for n, s in bad:
            ctx.bad("before", "%s:%s" % (f.n, ",".join(sorted(s))), n.loc(), "probes are started before the new %s was saved" % ", ".join(sorted(s)))
        if n_ev[0] and not bad:
            ctx.ok("before", f.n)
