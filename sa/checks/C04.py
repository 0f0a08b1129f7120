"""Prediction: the conditional at an arbitrary coordinate, from the conditioned states around it."""
from ..api import *
from .. import generic
from ..solverlib import *
from ..exposures import Exposures, Model
import numpy as np
from ..prediction import Requests, formula


class Plain:
    """an arbitrary instantaneous model (transition, noise, prior)"""

    def __init__(self, tag, dim):
        self.tag, self.dim = tag, dim

    def A(self, dt):
        return generic.Amat(self.tag, self.dim, const(0), dt)

    def Q(self, dt):
        return generic.Q(self.tag, self.dim, const(0), dt)

    def P(self):
        return generic.P(self.tag, self.dim)


class Composed:
    """sum / product of two arbitrary order one models"""

    def __init__(self, op):
        self.g = op == "__add__"
        self.dim = 2 if self.g else 1

    def both(self, a, b):
        return bd(a, b) if self.g else mm(a, b)

    def A(self, dt):
        return self.both(generic.Amat("g", 1, const(0), dt), generic.Amat("h", 1, const(0), dt))

    def P(self):
        return self.both(generic.P("g", 1), generic.P("h", 1))

    def Q(self, dt):
        a, p = self.A(dt), self.P()
        return minus(p, mm(a, p, T(a)))


POS = ("first", "interior", "last")


def setup(w, sol, d, n, op=None):
    integ = "Integrated" in sol
    D = (Exposures if integ else Data)(w, n)
    if integ:
        k, mod = generic.integrated(w, "gi", d), Model("gi", d + 1)
    elif op:
        k = w.meth(generic.kernel(w, "g", 1, name="a"), op, generic.kernel(w, "h", 1, name="b"))
        mod = Composed(op)
    else:
        k, mod = generic.kernel(w, "g", d), Plain("g", d)
    return D, k, mod


def state_times(D):
    if isinstance(D, Exposures):
        return A.Arr((D.K,), fn=lambda i: D.time(i)), D.K
    return D.t, D.n


def obligations(R, sol, d, n, via, op=None, js=None):
    integ = "Integrated" in sol
    states = ("generic", "first", "last") if n is None else tuple(range(2 * n if integ else n))
    cases = [("before", 0), ("after", None)]
    cases += [("between", s) for s in (("generic", "1", "last") if n is None else states[1:])]
    cases += [("on a state", s) for s in states]
    for wh, s in cases:
        for pos in (js or ((1,) if (wh, s) != ("between", "generic") else (0, 1, 2))):
            def f(w, wh=wh, s=s, pos=pos):
                D, k, mod = setup(w, sol, d, n, op)
                if integ and n is not None:
                    sv = w.call(SOLVERS[sol], k, D.X, D.diag_noise())
                    D.read_literal(w, [M.AA(x) for x in w.attr(sv, "state_coords")])
                ts, K = state_times(D)
                if wh == "before":
                    kk = 0
                elif wh == "after":
                    kk = dn(K)
                elif isinstance(s, int):
                    kk = s
                else:
                    kk = {"generic": lambda: A.gen_index(K, 1), "first": lambda: 0, "1": lambda: 1,
                          "last": lambda: dn(add(lift(K), const(-1)))}[s]()
                Q = Requests(w, D, ts, tuple_coords=integ, m=None if n is None else 2)
                if isinstance(Q.m, int):
                    lab, j = Q.positions()[min(pos, Q.m - 1)]
                else:
                    lab, j = Q.positions()[pos]
                Q.place[A.idx_key(j)] = (wh, kk)
                if integ:
                    Q.neighbours(j)
                cls = generic.stub(w, sol, SOLVERS[sol], mod.dim, K, D.n)[0] if integ else w.get(SOLVERS[sol])
                sv = w.call(cls, k, D.X if integ else D.t, D.diag_noise())
                if via == "solver":
                    res = w.meth(sv, "condition", D.y)
                    cs = res[1]
                    pm, pP = w.meth(sv, "predict", Q.X, res)
                else:
                    g = w.call("smolgp.gp.GaussianProcess", k, D.X if integ else D.t, diag=D.r, solver=sv)
                    c = w.attr(w.meth(g, "condition", D.y), "gp")
                    cs = w.meth(w.attr(c, "states"), "__call__")[1]
                    ps = w.meth(c, "predict", Q.X, return_full_state=True)
                    pm, pP = w.attr(ps, "mean"), w.attr(ps, "cov")
                pm, pP = M.AA(pm), M.AA(pP)
                w.eqb("one prediction per requested coordinate",
                      A.dim_eq(pm.shape[0], Q.m) and A.dim_eq(pP.shape[0], Q.m), True)
                if w.mis:
                    return
                gm, gP = at(pm, j), at(pP, j)
                for p in Q.problems[:1]:
                    w.bad("locating a request among the states", p)
                x = A.num(at(Q.t, j).get(()))
                T_ = lambda i: A.num(at(ts, i).get(()))
                if wh == "on a state" and not integ:
                    w.eq("mean is the smoothed one of that state", gm, at(M.AA(cs[2][0]), kk))
                    w.eq("covariance is the smoothed one of that state", gP, at(M.AA(cs[2][1]), kk))
                    return
                if wh == "on a state":
                    sm, sP = at(M.AA(cs[2][0]), kk), at(M.AA(cs[2][1]), kk)
                    if M_same(gm, sm) and M_same(gP, sP):
                        return
                    kk = nxt(kk)
                wm, wP = formula(w, mod, cs, T_, kk, x, K)
                w.eq("predicted mean", gm, wm)
                w.eq("predicted covariance", gP, wP)
            nm = f"{wh}" + ("" if s in (0, None) and wh != "on a state" and wh != "between" else f" ({s})")
            R.obl(f"{sol}, {op or 'order ' + str(d)}, {label(n)}, via {via}: request {nm}, {POS[pos]} of M", f,
                  f"smolgp.solvers.{sol}.predict", limit=3000)


def M_same(a, b):
    return all(A.num(a.get(i)).key == A.num(b.get(i)).key for i in np.ndindex(*a.shape))


def run(R):
    for sol in SOLVERS:
        integ = "Integrated" in sol
        obligations(R, sol, 1, None, "solver")
        obligations(R, sol, 1, None, "process")
        if not integ:
            obligations(R, sol, 2, None, "solver", js=(1,))
            obligations(R, sol, 1, 1, "solver", js=(1,))
            obligations(R, sol, 1, 2, "solver", js=(1,))
            for op in ("__add__", "__mul__"):
                obligations(R, sol, 1, None, "solver", op=op, js=(1,))
        else:
            obligations(R, sol, 1, 1, "solver", js=(1,))
            if R.tier != "quick":
                obligations(R, sol, 2, None, "solver", js=(1,))
    return R.finish("proof", {"explanation":
        "an arbitrary request (before, between any two consecutive states, after, on a state; first, interior or last of any number) "
        "is followed through location, prediction and smoothing, and compared with the exact conditional given the neighbouring conditioned states"}, 60)
