"""Results per data point: every observation seen through its own coordinates at its own state."""
from .api import *
from . import generic
from .solverlib import *
from .exposures import Exposures

GP = "smolgp.gp.GaussianProcess"


def integ(sol):
    return "Integrated" in sol


class Process:
    """a process whose filter and smoother are opaque; one or more generic components"""

    def __init__(self, w, sol, d=1, n=None, comps=1, mean="function", dup=False, names=None):
        self.w, self.sol, self.n = w, sol, n
        D = self.D = (Exposures if integ(sol) else Data)(w, n)
        self.X = D.X if integ(sol) else D.t
        self.tags = [("gi" if integ(sol) else "g") + ("" if c == 0 else str(c)) for c in range(comps)]
        self.names = names or ["Model"] * comps if dup else [f"model{c}" for c in range(comps)]
        mk = generic.integrated if integ(sol) else generic.kernel
        ks = [mk(w, t, d, name=nm) for t, nm in zip(self.tags, self.names)]
        k = ks[0]
        for x in ks[1:]:
            k = w.meth(k, "__add__", x)
        self.kernel, self.leaves = k, ks
        self.dims = [d + (1 if integ(sol) else 0)] * comps
        self.dim = sum(self.dims)
        self.K = D.K if integ(sol) else D.n
        self.cls, self.o = generic.stub(w, sol, SOLVERS[sol], self.dim, self.K, D.n)
        if integ(sol) and n is not None:
            sv = w.call(SOLVERS[sol], k, D.X, D.diag_noise())
            D.read_literal(w, [M.AA(x) for x in w.attr(sv, "state_coords")])
        self.mean_kind = mean
        kw = {}
        if mean == "function":
            kw["mean"] = meanfn(w)
        elif mean == "constant":
            kw["mean"] = atom("mu0")
        w.c.hooks["isfinite"] = lambda s: True
        self.solver = w.call(self.cls, k, self.X, D.diag_noise())
        self.gp = w.call(GP, k, self.X, diag=D.r, solver=self.solver, **kw)

    # ------------------------------------------------ expectations
    def H(self, X, comps=None):
        """observation row at a coordinate; components not named contribute nothing"""
        rows = []
        for c, t in enumerate(self.tags):
            if comps is not None and c not in comps:
                rows.append(A.full((1, self.dims[c]), 0))
            else:
                rows.append(generic.H(t + "!" if integ(self.sol) else t, self.dims[c], X))
        return A.concatenate(rows, 1)

    def coord(self, X, i):
        return tuple(at(x, i).get(()) for x in X) if isinstance(X, tuple) else at(X, i).get(())

    def mu(self, X, i):
        if self.mean_kind == "function":
            return mean_at(self.D, i, X)
        return atom("mu0") if self.mean_kind == "constant" else const(0)

    def state(self, i):
        """the state in which observation i is seen: its own, or the end of its exposure"""
        D = self.D
        if not integ(self.sol):
            return i
        if isinstance(D.n, int):
            return D.literal.index((i, True))
        r = D.bounded(("rank", True, A.idx_key(dn(i))), D.n)
        D.rank_of(True, r, i)
        return D.position_of(True, r)

    def at_data(self, i, comps=None):
        """(mean, variance) of observation i without the mean function"""
        s = self.state(i)
        h = self.H(self.coord(self.X, i), comps)
        return mm(h, at(self.o["ms"], s)), mm(h, at(self.o["Ps"], s), T(h))

    def seen(self, X, i, m, P, comps=None):
        h = self.H(self.coord(X, i), comps)
        return mm(h, m), mm(h, P, T(h))

    def check(self, what, got, want, i, mean=None):
        w = self.w
        g = M.AA(got)
        ok = w.eqb(f"{what}: one value per point", g.ndim == 1, True)
        if ok:
            x = A.num(want.get((0,) * want.ndim))
            if mean is not None:
                x = add(x, lift(mean))
            w.eq(what, at(g, i), arr0(x))

    def lengths(self, what, n, *arrs):
        for a in arrs:
            a = M.AA(a)
            self.w.eqb(f"{what}: shape", pshape(a.shape), pshape((n,)))

    def points(self):
        n = self.D.n
        if isinstance(n, int):
            return list(range(n))
        return [0, A.gen_index(n, 3), dn(add(n, const(-1)))]
