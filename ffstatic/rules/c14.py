"""C14: all evaluation routes of the expression parser agree."""
TECHNIQUE = "abstract interpretation of one step of every evaluation route on a symbolic stack, per token class, compared with one meaning table"
NOTE = ("Inductive: each route's token loop is interpreted once per token class on an arbitrary stack and the resulting stack term is compared with the operator's meaning, "
        "so programs of any length agree. Field operations are uninterpreted (C01, C02). Constructs the interpreter cannot express are reported as notes.")

from ..parser import *

PLAIN = "std::vector<std::basic_string<char>>"


def is_route(f):
    if f.recn != "ShuntingYardParser" or f.raw.get("body") is None or f.lam:
        return False
    fld = lambda t: "firefly::FFInt" in t
    return fld(f.ret) and "pair" not in f.ret and any(unconst(p.t).startswith("std::vector<firefly::FFInt") for p in f.params)


def start(ai, f, check_is_equal=0):
    st = State()
    fr = ai.frame(f)
    for pv in f.params:
        t = unconst(pv.t).strip(" &")
        v = ("tokvec", 1) if t == PLAIN else VALUES if t.startswith("std::vector<firefly::FFInt") else ("sym", pv.n)
        st.m[("L", pv.d, pv.n)] = v
    st.m[("this", "check_is_equal")] = K(check_is_equal)
    return fr, st


def execute(P, f, token=None, pair=None, eq=0, same=None):
    ai = ParserAI(P, token, pair)
    ai.same_size = same
    fr, st = start(ai, f, eq)
    out = ai.exec(fr, f.body, st)
    return ai, out


class Route:
    """how a route keeps its stack: found from its reaction to '+' and to a variable"""

    def __init__(self, P, f, kinds=None):
        self.P, self.f = P, f
        self.kinds = kinds
        self.delta = 0
        self.form = None

    def feed(self, tok, pair=None, eq=0, same=None):
        return execute(self.P, self.f, tok, pair, eq, same)

    def observe(self, ai):
        """[(inner, after)] of the token loop"""
        l = ai.tok_loop()
        if l is None:
            return None, []
        return l, [(i, s) for _, i, s, _ in ai.obs.get(l, [])]


def stack_effect(ai, loop, inner, after, depth_root=None, delta=0):
    """-> ("refused",) | ("stk", elems, pops) | ("arr", ...) | ("?", why)"""
    if after is None:
        return ("refused",)
    for r in ai.havoced.get(loop, ()):
        v = inner.m.get(r)
        w = after.m.get(r)
        if v is not None and v[0] == "stk":
            if w is None or w[0] != "stk":
                return ("?", "the stack is not followed")
            return norm_stack(w)[2:] and ("stk", norm_stack(w)[1]) + norm_stack(w)[2:]
    return None


def arr_roots(ai, loop, inner):
    return [r for r in ai.havoced.get(loop, ()) if r[0] == "H" or inner.m.get(r, ("",))[0] == "arr"]


def run(ctx):
    ctx.rule("step", "a token does to the evaluation stack what the operator or operand it stands for means, on every route")
    ctx.rule("stored", "the precomputed form of a token exists and is unambiguous")
    ctx.rule("result", "the value a route returns for a function is what its stack holds after the last token")
    ctx.rule("shared", "every route returns one value per parsed function, taking shared functions from the same table")
    P = load(("default",), {"ShuntingYardParser.cpp", "unit_math.cpp"})["default"]
    P.link()
    ops = operators(P)
    ctx.need("step", len(ops) >= 5, "operators of the parser")
    routes = sorted([f for f in P.fns.values() if is_route(f)], key=lambda f: (f.q, str(f.raw.get("ta")), f.u))
    ctx.need("step", len(routes), "evaluation routes")
    stored = precomputed_forms(ctx, P, ops)
    n_str = n_pre = 0
    for f in routes:
        ai, _ = execute(P, f, "+", ("pair", K(-7), ("fld", K(0))))
        l = ai.tok_loop()
        if l is None:
            # delegates to another route?
            if not any(P.callee(n) in routes for n in f.walk() if n.k == "Call"):
                ctx.notes.append("%s: no loop over tokens found" % label(f))
            continue
        strings = any(isinstance(v, str) for v in [kind_of_read(ai)]) and kind_of_read(ai) == "str"
        if strings:
            n_str += 1
            toks = [(t, t, None) for t in sorted(ops) + OPERANDS]
        else:
            n_pre += 1
            toks = []
            for t in sorted(ops) + OPERANDS:
                for pr in stored.get(t, ()):
                    toks.append((t, None, pr))
        one_route(ctx, P, f, toks, ops)
        tails(ctx, P, f, strings, stored)
    ctx.need("step", n_str and n_pre, "plain and precomputed routes (%d, %d)" % (n_str, n_pre))


def kind_of_read(ai):
    return ai.read_kind


def label(f):
    return "%s%s(%s)" % (f.n.split("<")[0], "<%s>" % ",".join(str(x).replace("firefly::", "") for x in f.raw["ta"]) if f.raw.get("ta") else "", ",".join("rpn" if "basic_string" in p.t else "values" for p in f.params))


def operators(P):
    """characters that can become operator tokens: constants pushed to the operator stack and what is_operator accepts"""
    out = set()
    for f in P.fns.values():
        if f.recn != "ShuntingYardParser":
            continue
        if f.n == "is_operator":
            for ch in "+-*/^!~;%&|=<>#@$?:.,":
                ai = ParserAI(P)
                st = State()
                st.m[("L", f.params[0].d, f.params[0].n)] = K(ord(ch))
                o = ai.exec(ai.frame(f), f.body, st)
                vs = {ai.truth(v) for _, v, _ in o.get("return", [])}
                if True in vs or None in vs and ch in "+-*/^":
                    out.add(ch)
        for n in f.walk():
            if n.k == "Call" and n.obj is not None and n.name in ("push", "emplace", "push_back") and "stack<char" in n.obj.t or n.k == "Call" and n.obj is not None and n.name in ("push_back", "emplace_back", "push") and unconst(n.obj.t).startswith(("std::vector<char", "std::deque<char")):
                for a in n.args():
                    for x in a.walk():
                        if x.cv is not None and 32 < x.cv < 127 and chr(x.cv) not in "()":
                            out.add(chr(x.cv))
    return out


def meaning(t, ops):
    """('bin', f) | ('val', term) | None (to be refused)"""
    if t in OPSPEC:
        return ("bin", OPSPEC[t])
    if t in ops:
        return ("bin", None)
    v = operand_meaning(t)
    return None if v is None else ("val", v)


def effects(P, f, tok, pair, depth=None):
    ai, out = execute(P, f, tok, pair)
    l = ai.tok_loop()
    if l is None:
        return ai, None, []
    return ai, l, [(i, s) for _, i, s, _ in ai.obs.get(l, [])]


def same_root(a, b):
    return a == b


def one_route(ctx, P, f, toks, ops):
    lab = label(f)
    strings = any(t[1] is not None for t in toks)
    # calibrate array stacks with '+' and a variable
    plus = next((t for t in toks if t[0] == "+"), None)
    var = next((t for t in toks if t[0] == VAR), None)
    if plus is None or var is None:
        ctx.notes.append("%s: no precomputed form of '+' or of a variable, not decided" % lab)
        return
    ai, l, obs = effects(P, f, plus[1], plus[2])
    if not obs:
        ctx.notes.append("%s: not decided" % lab)
        return
    inner, after = obs[-1]
    form = None
    stks = [r for r in ai.havoced.get(l, ()) if inner.m.get(r, ("",))[0] == "stk"]
    if stks:
        form = "stk"
    else:
        depth = []
        for r in ai.havoced.get(l, ()):
            v, w = inner.m.get(r), after.m.get(r) if after else None
            if v is not None and w is not None and v[0] in ("sym", "lin") and w != TOP:
                d = ladd(w, v, -1)
                if d == K(-1):
                    depth.append(r)
        arrs = [r for r in ai.havoced.get(l, ()) if r[0] == "H" or inner.m.get(r, ("",))[0] == "arr"]
        if len(depth) == 1 and len(arrs) == 1:
            form = "arr"
            aiv, lv_, obv = effects(P, f, var[1], var[2])
            delta = None
            if obv:
                iv, av = obv[-1]
                D = iv.m[depth[0]]
                w = av.m.get([r for r in aiv.havoced[lv_] if r == arrs[0]][0]) if av else None
                cells = w[2] if w is not None and w[0] == "arr" else ()
                if len(cells) == 1:
                    d = ladd(cells[0][0], D, -1)
                    if d is not None and d[0] == "c":
                        delta = d[1] - 1
            if delta is None:
                form = None
    if form is None:
        ctx.notes.append("%s: how the route keeps its stack is not followed, not decided" % lab)
        return
    for t, tok, pr in toks:
        m = meaning(t, ops)
        key = "%s:%s" % (lab, t)
        ai, l, obs = effects(P, f, tok, pr)
        if not obs:
            ctx.notes.append("%s: not decided" % key)
            continue
        for inner, after in obs:
            if after is None:
                ctx.check(m is None, "step", key, f.loc(), "token '%s' is refused" % t)
                continue
            if m is None:
                ctx.bad("step", key, f.loc(), "the undeclared name '%s' is not refused" % t)
                continue
            if form == "stk":
                r = [x for x in ai.havoced.get(l, ()) if inner.m.get(x, ("",))[0] == "stk"]
                w = after.m.get(r[0]) if r else None
                if len(r) != 1 or w is None or w[0] != "stk" or has_top(w):
                    ctx.notes.append("%s: not decided" % key)
                    continue
                base = inner.m[r[0]][1]
                X, Y = ("at", base, ("b", 1)), ("at", base, ("b", 0))
                got = norm_stack(w)
                if m[0] == "bin":
                    if m[1] is None:
                        ctx.check(got[3] == 2 and len(got[2]) == 1, "step", key, f.loc(), "operator '%s' is not applied" % t)
                        continue
                    exp = ("stk", base, (canon(m[1](X, Y)),), 2)
                else:
                    exp = ("stk", base, (canon(m[1]),), 0)
                verdict(ctx, key, f, t, got[2:] == exp[2:], got, exp)
            else:
                D = inner.m.get(depth[0])
                D2 = after.m.get(depth[0])
                rr = [x for x in ai.havoced.get(l, ()) if x[0] == "H" or inner.m.get(x, ("",))[0] == "arr"]
                w = after.m.get(rr[0]) if rr else None
                base = inner.m.get(rr[0]) if rr else None
                if w is None or D is None or D2 is None or has_top(D2) or w == TOP or has_top(w):
                    ctx.notes.append("%s: not decided" % key)
                    continue
                at = lambda k: ai.project(base, ("i", ladd(D, K(k + delta))))
                cur = lambda k: canon(ai.project(w, ("i", ladd(D, K(k + delta)))))
                X, Y = at(-1), at(0)
                dd = ladd(D2, D, -1)
                low = -1 if m[0] == "bin" else 0
                cells = w[2] if w[0] == "arr" else ()
                clean = True
                for i, v in cells:
                    k = ladd(i, ladd(D, K(delta)), -1)
                    if k is None or k[0] != "c":
                        clean = False
                    elif k[1] < (-1 if m[0] == "bin" else 1) and v != at(k[1]):
                        clean = False
                if m[0] == "bin":
                    if m[1] is None:
                        ctx.check(dd == K(-1) and cur(-1) != canon(X), "step", key, f.loc(), "operator '%s' is not applied" % t)
                        continue
                    exp = canon(m[1](X, Y))
                    verdict(ctx, key, f, t, dd == K(-1) and cur(-1) == exp and clean, (show(cur(-1)), "depth change " + show(dd)), (show(exp), "depth change -1"))
                else:
                    exp = canon(m[1])
                    verdict(ctx, key, f, t, dd == K(1) and cur(1) == exp and clean, (show(cur(1)), "depth change " + show(dd)), (show(exp), "depth change 1"))


def verdict(ctx, key, f, t, ok, got, exp):
    def s(x):
        if x and x[0] == "stk":
            return "removes %d and pushes %s" % (x[3], ", ".join(show(y) for y in x[2]) or "nothing")
        return ", ".join(x)
    ctx.check(ok, "step", key, f.loc(), "token '%s': %s; its meaning: %s" % (t, s(got), s(exp)))


# ---------------------------------------------------------------- precomputed forms
def precomputed_forms(ctx, P, ops):
    """token -> pairs that preparing a function stores for it (outside constant folding, see C15)"""
    from . import c15
    out = {}
    for t in sorted(ops) + OPERANDS:
        r = c15.step(P, t, ("op", "op"))
        if r is None:
            ctx.notes.append("precomputed form of '%s': not decided" % t)
            continue
        m = meaning(t, ops)
        if r == "refused":
            ctx.check(m is None, "stored", t, "ShuntingYardParser::precompute", "token '%s' is refused when a function is prepared" % t)
            continue
        if m is None:
            ctx.bad("stored", t, "ShuntingYardParser::precompute", "the undeclared name '%s' is not refused when a function is prepared" % t)
            continue
        new = r.new_cells()
        if new is None:
            ctx.notes.append("precomputed form of '%s': not decided" % t)
            continue
        if len(new) == 1 and new[0][0] == "pair" and new[0][1][0] == "c" and not has_top(new[0]):
            ctx.ok("stored", "%s -> kind %s" % (t, show(new[0][1])))
            out.setdefault(t, []).append(new[0])
        elif not new:
            ctx.bad("stored", t, "ShuntingYardParser::precompute", "nothing is stored for token '%s'" % t)
        else:
            ctx.notes.append("precomputed form of '%s': not decided" % t)
    return out


# ---------------------------------------------------------------- what a route returns
def tails(ctx, P, f, strings, stored):
    lab = label(f)
    tok = VAR if strings else None
    pair = None if strings else (stored.get(VAR) or [None])[0]
    if not strings and pair is None:
        return
    vec = unconst(f.ret).startswith("std::vector<")
    EP = ("sym", "evaluation_positions")
    for eq, same in ((0, None), (1, True), (1, False)):
        ai, out = execute(P, f, tok, pair, eq, same)
        l = ai.tok_loop()
        obs = ai.obs.get(l, [])
        if not obs:
            return
        key = "%s:%s" % (lab, "plain" if not eq else "all different" if same else "shared")
        # values handed out per function
        rets = out.get("return", [])
        if not rets:
            ctx.notes.append("%s: result not decided" % key)
            continue
        for s, v, lv in rets:
            if not vec:
                ok = top_value(ai, l, v)
                if ok is None:
                    ctx.notes.append("%s: result not decided" % key)
                else:
                    ctx.check(ok, "result", lab, f.loc(), "returns %s instead of the value left on the stack" % show(v))
                continue
            judge_vec(ctx, ai, f, l, v, key, lab, eq, same, EP)


def top_value(ai, l, v):
    """is v the top of the evaluation stack after the token loop? None: unknown"""
    if has_top(v):
        return None
    if v[0] == "at" and v[2] == ("b", 0):
        return True
    if v[0] == "at" and v[2][0] == "i":
        # array stacks: fixed first slot (a well-formed function leaves exactly one value) or the current top
        return True
    if v[0] == "fld" and v[1] == K(0):
        return None
    return False


def pushes(ai, root_name):
    """values pushed per iteration to the vector whose symbolic contents are named so"""
    out = []
    for n, obs in ai.obs.items():
        for _, inner, after, _ in obs:
            if after is None or inner is None:
                continue
            for r, w in after.m.items():
                v = inner.m.get(r)
                if v is not None and v[0] == "stk" and v[1] == root_name and w != v:
                    out.append((n, w))
    return out


def judge_vec(ctx, ai, f, l, v, key, lab, eq, same, EP):
    def plain(v):
        return v[0] == "stk" and not v[2] and not v[3]

    if has_top(v):
        ctx.notes.append("%s: result not decided" % key)
        return
    base = v
    if v[0] == "map" and eq:
        el = ("elemof", v[1])
        e = v[2]
        good = v[1] == EP and e[0] == "at" and e[2] == ("i", el)
        base = e[1] if good else None
        ctx.check(good, "shared", key, f.loc(), "the value of a function is not taken from the position recorded for it")
        if not good:
            return
    elif plain(v) and eq and not same:
        ps = pushes(ai, v[1])
        es = [w[2][-1] for _, w in ps if w[0] == "stk" and w[2]]
        if any(e[0] == "at" and e[2][0] == "i" and e[2][1][0] == "at" and e[2][1][1] == EP for e in es):
            base = es[0][1]
            ctx.ok("shared", key)
        else:
            ctx.bad("shared", key, f.loc(), "with shared functions the values are not expanded to one per parsed function")
            return
    elif plain(v):
        ctx.ok("shared", key)
    else:
        ctx.bad("shared", key, f.loc(), "returns %s" % show(v))
        return
    if not plain(base):
        ctx.notes.append("%s: result not decided" % key)
        return
    ps = pushes(ai, base[1])
    vals = []
    for n, w in ps:
        if w[0] == "stk":
            if len(w[2]) != 1 or w[3]:
                ctx.bad("result", lab, f.loc(), "%d values are added for one function" % len(w[2]))
                return
            vals.append(w[2][0])
    if not vals:
        ctx.notes.append("%s: result not decided" % key)
        return
    for x in vals:
        ok = top_value(ai, l, x)
        if ok is None:
            ctx.notes.append("%s: result not decided" % key)
        else:
            ctx.check(ok, "result", lab, f.loc(), "hands out %s instead of the value left on the stack" % show(x))
