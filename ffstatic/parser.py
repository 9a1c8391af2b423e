"""Model of the expression parser's building blocks for the abstract interpreter:
token strings (constants), symbolic evaluation stacks, stored (kind, value) pairs."""
from .core import *
from .core import strip
from .absint import *
from .absint import c as K

IDX = ("sym", "varindex")
OPSPEC = {
    "+": lambda x, y: madd(x, y),
    "-": lambda x, y: msub(x, y),
    "*": lambda x, y: mmul(x, y),
    "/": lambda x, y: mdiv(x, y),
    "^": lambda x, y: ("pow", x, y),
    "!": lambda x, y: mneg(("pow", x, y)),
    "~": lambda x, y: minv(("pow", x, y)),
    ";": lambda x, y: mneg(minv(("pow", x, y))),
}
VAR = "x"
OPERANDS = [s + t for t in (VAR, "12", "7", "123456789012345678", "12345678901234567890123") for s in ("", "+", "-")] + ["zz", "-zz", "+zz"]
VALUES = ("sym", "values")


def varval():
    return ("at", VALUES, ("i", IDX))


def numfield(v):
    return ("fld", K(v))


def neg(t):
    if t[0] == "fld" and t[1][0] == "c":
        return ("fld", K(-t[1][1]))
    return mneg(t)


def canon(t):
    """push negations of constants into the constants"""
    if not isinstance(t, tuple):
        return t
    t = tuple(canon(x) for x in t)
    if len(t) == 2 and t[0] == "neg" and isinstance(t[1], tuple) and t[1][:1] == ("fld",) and t[1][1][0] == "c":
        return ("fld", K(-t[1][1][1]))
    if t and t[0] in ("sum", "prod") and len(t) == 2 and isinstance(t[1], tuple):
        return (t[0], tuple(sorted(t[1], key=repr)))
    return t


def operand_meaning(tok):
    """value an operand token stands for, or None if it has to be refused"""
    sign, body = ("", tok)
    if tok[0] in "+-":
        sign, body = tok[0], tok[1:]
    if body == VAR:
        v = varval()
    elif body.isdigit():
        v = numfield(int(body))
    else:
        return None
    return neg(v) if sign == "-" else v


def residue(v):
    """depends on the representative of a field element"""
    if not isinstance(v, tuple):
        return False
    if len(v) == 3 and v[0] == "at" and v[2] == ("f", "n"):
        return True
    return any(residue(x) for x in v)


class ParserAI(AI):
    """token: the string (or pair) every element of a token container stands for"""

    def __init__(self, P, token=None, pair=None):
        AI.__init__(self, P)
        self.token = token
        self.pair = pair
        self.reads = []        # (innermost loop, index) of token reads
        self.obs = {}          # loop -> [(entry state, state after one iteration, outcome)]
        self.same_size = None
        self.syms = 0
        self.exits = 0
        self.read_kind = None

    def isfield(self, t):
        return AI.isfield(self, t)

    def initial(self, root, t, n):
        nm = str(root[-1])
        if root[0] == "this":
            if nm in ("functions",):
                return ("tokvec", 2)
            if nm == "precomp_tokens":
                return ("pairvec", 2)
            if nm == "vars_map":
                return ("varsmap",)
        return ("sym", nm)

    def typed_initial(self, t, nm):
        t = unconst(t).strip(" &")
        if t == "std::vector<std::basic_string<char>>":
            return ("tokvec", 1)
        return ("sym", nm)

    def note_read(self, a):
        l = self.active[-1] if self.active else None
        self.reads.append((l, a))

    def project(self, v, a):
        if v[0] == "fld" and a == ("f", "n") and v[1][0] == "c" and not 0 <= v[1][1] < 2 ** 61:
            return ("at", v, a)     # the representative depends on the field
        if v[0] == "tokvec" and a[0] in ("i", "elem", "back"):
            if v[1] == 1:
                self.note_read(a)
                self.read_kind = "str"
                return ("str", self.token)
            return ("tokvec", v[1] - 1)
        if v[0] == "pairvec" and a[0] in ("i", "elem", "back"):
            if v[1] == 1:
                self.note_read(a)
                self.read_kind = "pair"
                return self.pair
            return ("pairvec", v[1] - 1)
        if v[0] == "str":
            if a[0] == "i" and a[1][0] == "c":
                i = a[1][1]
                return K(ord(v[1][i])) if i < len(v[1]) else K(0)
            if a[0] == "back":
                return K(ord(v[1][-1])) if v[1] else TOP
            return TOP
        if v[0] == "stk":
            if a[0] == "back":
                return v[2][-1] if v[2] else ("at", v[1], ("b", v[3]))
            if a[0] == "i" and not v[2] and not v[3]:
                return ("at", v, a)
            return TOP
        if v[0] == "mapit" and a == ("f", "second"):
            return v[1]
        return AI.project(self, v, a)

    def update(self, v, accs, new):
        if accs and v[0] == "stk" and accs[0][0] == "back":
            old = self.project(v, accs[0])
            nv = self.update(old, accs[1:], new)
            if v[2]:
                return ("stk", v[1], v[2][:-1] + (nv,), v[3])
            return ("stk", v[1], (nv,), v[3] + 1)
        if accs and v[0] == "str":
            return TOP
        if accs and v[0] in ("tokvec", "pairvec"):
            return v
        return AI.update(self, v, accs, new)

    def havoc_val(self, root, st):
        v = st.m.get(root)
        if v is None:
            v = self.initial(root, "", None)
        if v[0] == "vec" and v[1] is None:
            return ("stk", ("sym", "stk:" + str(root[-1])), (), 0)
        if v[0] == "stk":
            return v
        if v[0] in ("tokvec", "pairvec", "varsmap"):
            return v
        if lin(v) is not None:
            return ("sym", "loop:%s%s" % (root[-1], "#" + str(root[1]).split(":")[-1] if root[0] == "L" else ""))
        if v[0] == "arr":
            return ("arr", v[1], ())
        return TOP

    def join_states(self, a, b):
        return AI.join_states(self, a, b)

    def truth(self, v):
        if v[0] == "cmp" and v[1] in ("==", "!=") and self.same_size is not None and {v[2], v[3]} == {("size", ("tokvec", 2)), ("size", ("sym", "evaluation_positions"))}:
            return self.same_size == (v[1] == "==")
        return AI.truth(self, v)

    def loop_enter(self, fr, n, entry, st):
        self.inner = getattr(self, "inner", {})
        self.inner[n] = st.copy()

    def loop_leave(self, fr, n, entry, st, out):
        self.obs.setdefault(n, []).append((entry, self.inner.get(n), st, out))

    def tok_loop(self):
        ls = [l for l, _ in self.reads if l is not None]
        return ls[-1] if ls else None

    # ---- strings and maps
    def call_model(self, fr, n, st):
        a = n.args()
        nm, op = n.name, n.op
        if n.k == "Construct":
            if "mpz_class" in n.t or "__gmp_expr" in n.t:
                if len(a) >= 1:
                    v = self.ev(fr, a[0], st)
                    return self.number(v)
            if n.t.startswith("std::vector<") and "basic_string" in n.t and len(a) >= 2:
                vs = [self.ev(fr, x, st) for x in a if x.k != "DefaultArg"]
                if len(vs) >= 2 and vs[0][0] == "c":
                    return ("vec", None, (vs[1],) * vs[0][1])
            return NotImplemented
        fq = n.d.get("fq", "")
        if nm in ("isdigit", "isalpha", "isspace", "isalnum") and a:
            v = self.ev(fr, a[0], st)
            if v[0] == "c" and 0 <= v[1] < 256:
                ch = chr(v[1])
                return K(int({"isdigit": "0" <= ch <= "9", "isalpha": ch.isalpha(), "isspace": ch.isspace(), "isalnum": ch.isalnum()}[nm]))
            return TOP
        if nm in ("stoull", "stoul", "stoll", "stol", "stoi", "strtoull", "strtoul", "atoi", "atol", "atoll") and a:
            v = self.ev(fr, a[0], st)
            return self.number(v, {"stoull": 2 ** 64 - 1, "stoul": 2 ** 64 - 1, "stoi": 2 ** 31 - 1, "atoi": 2 ** 31 - 1}.get(nm, 2 ** 63 - 1))
        if nm == "to_string" and len(a) == 1 and self.P.callee(n) is None:
            v = self.ev(fr, a[0], st)
            if v[0] == "c":
                return ("str", str(v[1]))
            if residue(v):
                return ("residue", v)
            return TOP
        if n.obj is not None and self.P.callee(n) is None:
            l = self.lv(fr, n.obj, st)
            v = self.read(st, l, n.obj) if l is not None else self.ev(fr, n.obj, st)
            if v[0] == "varsmap":
                if nm == "end" or nm == "cend":
                    return ("mapend",)
                if nm in ("find", "at", "count"):
                    k = self.ev(fr, a[0], st)
                    if k[0] != "str":
                        return TOP
                    if nm == "count":
                        return K(int(k[1] == VAR))
                    if nm == "find":
                        return ("mapit", IDX) if k[1] == VAR else ("mapend",)
                    if k[1] == VAR:
                        return IDX
                    self.dead(st)
                    return TOP
            if v[0] == "str":
                r = self.string(fr, n, st, l, v[1], nm, a)
                if r is not None:
                    return r
            if v[0] == "stk":
                r = self.stack(fr, n, st, l, v, nm, a)
                if r is not None:
                    return r
            if v[0] in ("tokvec", "pairvec") and nm in ("size", "empty"):
                return ("size", v) if nm == "size" else ("cmp", "==", K(0), ("size", v))
            if v[0] == "arr" and nm in ("size",):
                return ("size", v[1])
        if op == "[]" and a and self.P.callee(n) is None:
            l = self.lv(fr, a[0], st)
            if l is not None and self.read(st, l, a[0]) == ("varsmap",):
                k = self.ev(fr, a[1], st)
                return IDX if k == ("str", VAR) else TOP
        if op in ("+", "+=") and len(a) == 2 and ("string" in a[0].t or "string" in a[1].t or "char" in a[0].t):
            x, y = self.ev(fr, a[0], st), self.ev(fr, a[1], st)
            if x[0] == "c":
                x = ("str", chr(x[1]))
            if y[0] == "c":
                y = ("str", chr(y[1]))
            v = ("residue", x, y) if "residue" in (x[0], y[0]) else self.concat(x, y)
            if op == "+=":
                self.write(st, self.lv(fr, a[0], st), v)
            return v
        if op in ("==", "!=") and len(a) == 2 and self.P.callee(n) is None:
            x, y = self.ev(fr, a[0], st), self.ev(fr, a[1], st)
            if {x[0], y[0]} <= {"mapit", "mapend"}:
                return K(int((x[0] == y[0]) == (op == "==")))
        if nm == "pow" and a and not self.isfield(a[0].t if n.obj is None else n.obj.t):
            return TOP
        return NotImplemented

    def dead(self, st):
        st.m = {("dead",): TRUE}

    def number(self, v, lim=None):
        if v[0] == "str":
            t = v[1]
            s = t
            if s[:1] == "+" and lim is None:
                return ("badnum",)       # mpz_class refuses a leading plus
            if s[:1] in "+-" and s:
                s = s[1:]
            if not s.isdigit():
                return ("badnum",)
            x = int(s)
            if lim is not None and x > lim:
                return ("badnum",)
            if t[0] == "-":
                return K(-x) if lim is None else K((-x) % (lim + 1)) if lim == 2 ** 64 - 1 else K(-x)
            return K(x)
        if v[0] == "c":
            return v
        return TOP

    def string(self, fr, n, st, l, s, nm, a):
        if nm in ("length", "size"):
            return K(len(s))
        if nm == "empty":
            return K(int(not s))
        if nm in ("c_str", "data", "str"):
            return ("str", s)
        if nm in ("front", "back") and s:
            return K(ord(s[0] if nm == "front" else s[-1]))
        vs = [self.ev(fr, x, st) for x in a if x.k != "DefaultArg"]
        if nm == "at" and vs[0][0] == "c":
            i = vs[0][1]
            if i < len(s):
                return K(ord(s[i]))
            self.dead(st)
            return TOP
        if nm == "substr" and all(v[0] == "c" for v in vs):
            i = vs[0][1] if vs else 0
            k = vs[1][1] if len(vs) > 1 else -1
            return ("str", s[i:] if k < 0 or k > len(s) else s[i:i + k])
        if nm == "erase":
            if vs and vs[0][0] == "c":
                i = vs[0][1]
                k = vs[1][1] if len(vs) > 1 and vs[1][0] == "c" else len(s)
                r = s[:i] + (s[i + k:] if 0 <= k <= len(s) else "")
            elif vs and vs[0][0] == "iter" and vs[0][2] == "begin" and len(vs) == 1:
                r = s[1:]
            else:
                self.write(st, l, TOP)
                return TOP
            self.write(st, l, ("str", r))
            return TOP
        if nm == "insert" and len(vs) >= 2:
            ins = None
            if vs[-1][0] == "str":
                ins = vs[-1][1]
            elif vs[-1][0] == "c" and "char" in a[-1].t:
                ins = chr(vs[-1][1])
            pos = 0 if (vs[0] == K(0) or vs[0][0] == "iter" and vs[0][2] == "begin") else None
            if ins is not None and pos == 0:
                self.write(st, l, ("str", ins + s))
            else:
                self.write(st, l, TOP)
            return TOP
        if nm in ("push_back", "append") and vs:
            x = vs[0]
            self.write(st, l, ("str", s + (chr(x[1]) if x[0] == "c" else x[1])) if x[0] in ("c", "str") else TOP)
            return TOP
        if nm == "compare" and len(vs) == 1 and vs[0][0] == "str":
            return K((s > vs[0][1]) - (s < vs[0][1]))
        if nm in ("find", "find_first_of", "rfind", "find_first_not_of") and vs:
            x = vs[0]
            x = chr(x[1]) if x[0] == "c" else x[1] if x[0] == "str" else None
            if x is None:
                return TOP
            if nm == "find":
                i = s.find(x)
            elif nm == "rfind":
                i = s.rfind(x)
            else:
                i = next((j for j, ch in enumerate(s) if (ch in x) == (nm == "find_first_of")), -1)
            return K(i if i >= 0 else 2 ** 64 - 1)
        if nm in ("begin", "cbegin", "end", "cend"):
            return ("iter", l, nm.lstrip("c"))
        if nm == "pop_back" and s:
            self.write(st, l, ("str", s[:-1]))
            return TOP
        return None

    def stack(self, fr, n, st, l, v, nm, a):
        if nm in ("push", "push_back", "emplace_back", "emplace"):
            vs = [self.ev(fr, x, st) for x in a]
            v = self.read(st, l, n.obj)
            e = ("pair",) + tuple(vs) if len(vs) == 2 else vs[0] if vs else TOP
            if e[0] == "c" and "FFInt" in n.obj.t:
                e = ("fld", e)
            self.write(st, l, ("stk", v[1], v[2] + (e,), v[3]))
            return TOP
        if nm in ("pop", "pop_back"):
            if v[2]:
                self.write(st, l, ("stk", v[1], v[2][:-1], v[3]))
            else:
                self.write(st, l, ("stk", v[1], (), v[3] + 1))
            return TOP
        if nm in ("top", "back"):
            return self.project(v, ("back",))
        if nm in ("size", "empty"):
            s = mklin({("size", v[1]): 1}, len(v[2]) - v[3])
            return s if nm == "size" else self.binop("==", s, K(0))
        if nm in ("reserve", "shrink_to_fit"):
            for x in a:
                self.ev(fr, x, st)
            return TOP
        if nm == "clear":
            self.write(st, l, ("vec", None, ()))
            return TOP
        return None


def norm_stack(v):
    """drop elements that are what was there before"""
    if v[0] != "stk":
        return v
    el, p = list(v[2]), v[3]
    while el and p and el[0] == ("at", v[1], ("b", p - 1)):
        el.pop(0)
        p -= 1
    return ("stk", v[1], tuple(canon(x) for x in el), p)


def has_top(t):
    if t == TOP or t == ("badnum",) and False:
        return True
    return isinstance(t, tuple) and any(has_top(x) for x in t if isinstance(x, tuple))


def show(t):
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == "fld":
        return show(t[1])
    if k == "c":
        return str(t[1])
    if k == "neg":
        return "-(%s)" % show(t[1])
    if k == "inv":
        return "1/(%s)" % show(t[1])
    if k == "sum":
        return "(%s)" % " + ".join(show(x) for x in t[1])
    if k == "prod":
        return "(%s)" % " * ".join(show(x) for x in t[1])
    if k == "pow":
        return "%s^%s" % (show(t[1]), show(t[2]))
    if k == "negint":
        return "-int(%s)" % show(t[1])
    if k == "at":
        if t[2][0] == "b":
            return {0: "top", 1: "second"}.get(t[2][1], "below")
        return "%s[%s]" % (show(t[1]), show(t[2][1]) if len(t[2]) > 1 else "*")
    if k in ("sym",):
        return str(t[1])
    if k == "str":
        return repr(t[1])
    return str(t)
