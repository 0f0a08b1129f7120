"""Log likelihood: sum of the innovations' log densities, for every solver, mean and value class."""
from ..api import *
from .. import generic
from ..solverlib import *

GP = "smolgp.gp.GaussianProcess"


def evidence(w, v, S, n):
    """-1/2 sum_k ( v_k^2/S_k + log S_k + log 2 pi )"""
    v, S = M.AA(v), M.AA(S)

    def term(k):
        vk, Sk = A.num(v.get((k, 0))), A.num(S.get((k, 0, 0)))
        return add(add(mul(mul(vk, vk), N.inv(Sk)), N.log(Sk)), N.log(mul(const(2), N.pi())))
    return mul(const(Fraction(-1, 2)), ssum(n, term))


def run(R):
    def model(w, D, sol, mean):
        k = generic.kernel(w, "g", 2)
        kw = {"diag": D.r, "solver": w.get(SOLVERS[sol])}
        mfun = None
        if mean == "function":
            kw["mean"] = meanfn(w)
            mfun = lambda i: mean_at(D, i)
        elif mean == "constant":
            kw["mean"] = atom("mu0")
            mfun = lambda i: atom("mu0")
        g = w.call(GP, k, D.t, **kw)
        resid = minus_vec(D.y, mfun) if mfun else D.y
        out = w.meth(w.call(SOLVERS[sol], k, D.t, D.diag_noise()), "Kalman", resid, return_v_S=True)
        return g, evidence(w, out[4], out[5], D.n)

    cases = [(s, m, n) for s in ("StateSpaceSolver", "ParallelStateSpaceSolver") for m in ("none", "constant", "function")
             for n in (None, 1, 2)]
    for sol, mean, n in cases:
        def f(w, sol=sol, mean=mean, n=n):
            w.c.hooks["isfinite"] = lambda s: True
            D = Data(w, n)
            g, want = model(w, D, sol, mean)
            w.eq("log probability", w.meth(g, "log_probability", D.y), arr0(want))
            res = w.meth(g, "condition", D.y)
            w.eq("log probability from conditioning", w.attr(res, "log_probability"), arr0(want))
            w.eq("log probability asked of the conditioned process", w.meth(w.attr(res, "gp"), "log_probability", D.y), arr0(want))
        R.obl(f"evidence, {sol}, mean {mean}, {label(n)}", f, "smolgp.gp.GaussianProcess.log_probability")

    def f(w):
        w.c.hooks["isfinite"] = lambda s: False
        D = Data(w)
        g, _ = model(w, D, "StateSpaceSolver", "none")
        want = arr0(neg(M.INFTY()))
        w.eq("log probability", w.meth(g, "log_probability", D.y), want)
        w.eq("log probability from conditioning", w.attr(w.meth(g, "condition", D.y), "log_probability"), want)
    R.obl("a value that is not finite is reported as minus infinity", f, "smolgp.gp.GaussianProcess._compute_log_prob")

    def f(w):
        w.c.hooks["isfinite"] = lambda s: True
        D, D2 = Data(w), None
        g, want = model(w, D, "StateSpaceSolver", "function")
        m = atom("M", aff=True, integral=True, iv=Iv(Fraction(24), N.INF, False, True))
        w.c.subst[("M",)] = {("M", "slack"): 1, None: 24}
        X = A.Arr((m,), fn=lambda i: atom("x", A.idx_key(i)))
        w.c.hooks["searchsorted"] = lambda a, v, side: dn(add(A.gen_index(D.n, 2), const(0)))
        res = w.meth(g, "condition", D.y, X)
        w.eq("log probability from conditioning with test coordinates", w.attr(res, "log_probability"), arr0(want))
    R.obl("evidence when conditioning with test coordinates", f, "smolgp.gp.GaussianProcess.condition")
    return R.finish("proof", {"explanation":
        "the reported log probability equals the sum of innovation log densities as an expression, for any N and literal N"}, 18)
