"""Affine equalities between program quantities (Karr's domain).

A state is the space of all equalities  sum a_i * x_i + c = 0  that are known to hold,
kept as a reduced row echelon basis; variables are arbitrary hashable names."""
from fractions import Fraction

ONE = ("1",)


def order(v):
    return (v == ONE, repr(v))


class Lin:
    """a linear expression: variable -> coefficient (ONE for the constant)"""
    __slots__ = ("m",)

    def __init__(self, m=None):
        self.m = {k: v for k, v in (m or {}).items() if v}

    def __add__(self, o):
        r = dict(self.m)
        for k, v in o.m.items():
            r[k] = r.get(k, 0) + v
        return Lin(r)

    def __sub__(self, o):
        return self + o.scale(-1)

    def scale(self, k):
        return Lin({x: v * k for x, v in self.m.items()})

    @property
    def const(self):
        if not self.m:
            return 0
        if list(self.m) == [ONE]:
            return self.m[ONE]
        return None


def var(v):
    return Lin({v: 1})


def num(k):
    return Lin({ONE: k} if k else {})


def reduce(row, basis):
    """row modulo the basis (list of (pivot, row))"""
    for p, r in basis:
        c = row.get(p)
        if c:
            row = dict(row)
            for k, v in r.items():
                x = row.get(k, 0) - c * v
                if x:
                    row[k] = x
                else:
                    row.pop(k, None)
    return row


def echelon(rows):
    basis = []
    for row in rows:
        row = reduce(row, basis)
        if not row:
            continue
        p = min(row, key=order)
        c = row[p]
        if c != 1:
            row = {k: Fraction(v) / c for k, v in row.items()}
        nb = []
        for q, r in basis:
            d = r.get(p)
            if d:
                r = dict(r)
                for k, v in row.items():
                    x = r.get(k, 0) - d * v
                    if x:
                        r[k] = x
                    else:
                        r.pop(k, None)
            nb.append((q, r))
        nb.append((p, row))
        basis = nb
    return basis


class Aff:
    __slots__ = ("basis", "_k")

    def __init__(self, basis=()):
        self.basis = list(basis)
        self._k = frozenset(frozenset(r.items()) for _, r in self.basis)

    def __eq__(self, o):
        return isinstance(o, Aff) and self._k == o._k

    def __hash__(self):
        return hash(self._k)

    @property
    def empty(self):
        return any(p == ONE for p, _ in self.basis)

    def norm(self, e):
        return Lin(reduce(e.m, self.basis))

    def value(self, e):
        """the constant an expression is known to equal, or None"""
        return self.norm(e).const

    def assume(self, e):
        """with e == 0"""
        r = reduce(e.m, self.basis)
        if not r:
            return self
        return Aff(echelon([x for _, x in self.basis] + [r]))

    def forget(self, vs):
        vs = set(vs)
        if not any(v in r for _, r in self.basis for v in vs):
            return self
        # bring the forgotten variables to the front, then drop their rows
        rows = [dict(r) for _, r in self.basis]
        for v in vs:
            piv = None
            for r in rows:
                if r.get(v):
                    piv = r
                    break
            if piv is None:
                continue
            rows.remove(piv)
            c = piv[v]
            out = []
            for r in rows:
                d = r.get(v)
                if d:
                    r = dict(r)
                    for k, x in piv.items():
                        y = r.get(k, 0) - Fraction(d) / c * x
                        if y:
                            r[k] = y
                        else:
                            r.pop(k, None)
                out.append(r)
            rows = out
        return Aff(echelon(rows))

    def assign(self, x, e):
        """x := e (None: unknown)"""
        if e is None:
            return self.forget([x])
        c = e.m.get(x, 0)
        if c == 0:
            return self.forget([x]).assume(var(x) - e)
        # invertible: old x = (new x - rest) / c
        rest = Lin({k: v for k, v in e.m.items() if k != x})
        old = (var(x) - rest).scale(Fraction(1) / c)
        rows = []
        for _, r in self.basis:
            d = r.get(x)
            if d:
                l = Lin({k: v for k, v in r.items() if k != x}) + old.scale(d)
                rows.append(l.m)
            else:
                rows.append(r)
        return Aff(echelon(rows))

    def join(self, o):
        """equalities that hold in both: the intersection of the two row spaces (Zassenhaus)"""
        if self == o:
            return self
        if self.empty:
            return o
        if o.empty:
            return self
        rows = []
        for _, r in self.basis:
            d = {("a", k): v for k, v in r.items()}
            d.update({("b", k): v for k, v in r.items()})
            rows.append(d)
        for _, r in o.basis:
            rows.append({("a", k): v for k, v in r.items()})
        out = []
        b = []
        for row in rows:
            row = reduce2(row, b)
            if not row:
                continue
            p = min(row, key=lambda k: (k[0], order(k[1])))
            if p[0] == "b":
                out.append({k[1]: v for k, v in row.items()})
                continue
            b.append((p, row))
        return Aff(echelon(out))

    def __repr__(self):
        return "; ".join(" ".join("%+s*%s" % (v, "/".join(map(str, k)) if isinstance(k, tuple) else k) for k, v in r.items()) + " = 0" for _, r in self.basis)


def reduce2(row, basis):
    for p, r in basis:
        c = row.get(p)
        if c:
            row = dict(row)
            f = Fraction(c) / r[p]
            for k, v in r.items():
                x = row.get(k, 0) - f * v
                if x:
                    row[k] = x
                else:
                    row.pop(k, None)
    return row
