"""The library's threads: one Conc model per program and per class that starts tasks."""
from .conc import *
from .core import strip

LIB = ("RatReconst", "PolyReconst", "BaseReconst", "PolynomialFF", "Polynomial", "RationalFunction", "RationalFunctionFF",
       "ShuntingYardParser", "FFInt", "FFIntVec", "BlackBoxBase")
TOKEN = ("token",)


def is_stream(t):
    return "stream" in t


class Model:
    """driver, tasks and user calls of one class (Reconstructor or MPIWorker)"""

    def __init__(self, P, cls, drivers, users, atomics=False):
        self.P, self.cls = P, cls
        pre = "firefly::%s::" % cls
        C = Conc(P, lambda q, n: q.startswith(pre) and not is_stream(n.t), note_recs=LIB)
        C.config_roots = list(drivers)
        C.want_path = lambda p, q: p[0] in ("this",)
        C.atomics = atomics
        self.C = C
        start = [(frozenset([C.TOKEN]) if C.handoffs() else frozenset(), frozenset([("known", ("this", "done"), False)]), frozenset())]
        self.T = Threads(C, drivers, users, frozenset(start))
        self.single = self.single_tasks()

    def single_tasks(self):
        """tasks that run at most once at a time: submitted to a local pool with one thread"""
        many, one = set(), set()
        for r, d in self.T.by_root.items():
            for (n, u), (pool, fr, held) in d["submits"].items():
                v = None
                x = fr
                if pool[0] == "L":
                    while x is not None and v is None:
                        v = x.paths.decls.get(pool[1])
                        x = x.up
                a = [strip(y) for y in strip(v.init).args()] if v is not None and v.init is not None and strip(v.init).k == "Construct" else []
                (one if a and a[0] is not None and a[0].cv == 1 else many).add(u)
        return one - many

    def roots(self):
        return list(self.T.by_root)

    def concurrent(self, r, s):
        """may one thread run r while another one runs s"""
        if r == s:
            return r[0] == "task" and r[1] not in self.single or r[0] == "user"
        return True

    def handed(self, root):
        """is the root a task that takes the turn through a hand-over flag"""
        if root[0] != "task" or not self.C.handoffs():
            return False
        return bool(self.C.waited_here(root[1]) & self.C.handoffs())


def concurrent_users(P, cls):
    """methods a user may call while the reconstruction runs"""
    return [f for f in P.fns.values() if f.recn == cls and f.n in ("get_early_results", "reconstruction_done") and f.cfg is not None and not f.lam]


def models(P, mpi, atomics=False):
    out = []
    d = [f for f in P.fn("firefly::Reconstructor::reconstruct") if f.cfg is not None]
    if d:
        out.append(Model(P, "Reconstructor", d[:1], concurrent_users(P, "Reconstructor"), atomics))
    if mpi:
        w = [f for f in P.fns.values() if f.recn == "MPIWorker" and f.cfg is not None and not f.lam and f.n == "run"]
        if w:
            out.append(Model(P, "MPIWorker", w[:1], [], atomics))
    return out
