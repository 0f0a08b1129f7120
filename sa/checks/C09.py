"""Values reported per data point, and per requested point: order, own coordinates, mean added once, own component."""
from ..api import *
from .. import generic
from ..projection import *
from ..prediction import Requests

PTS = ("first", "interior", "last")


def at_data(R, sol, n, mean):
    pts = range(3) if n is None else range(n)
    nm = f"{sol}, {label(n)}, mean {mean}"
    w_gp, w_st = "smolgp.gp.GaussianProcess.condition", "smolgp.gp.ConditionedStates.project_at_data"

    def f(w):
        p = Process(w, sol, 1, n, mean=mean)
        D, o = p.D, p.o
        c = w.attr(w.meth(p.gp, "condition", D.y), "gp")
        w.eqb("the data are filtered once", len(o["resid"]), 1)
        p.lengths("data given to the filter", D.n, o["resid"][0])
        for i in p.points():
            w.eq("residual given to the filter", at(M.AA(o["resid"][0]), i), arr0(add(at(D.y, i).get(()), neg(lift(p.mu(p.X, i))))))
        st = w.parts("conditioned states", w.meth(w.attr(c, "states"), "__call__"), 3)[1]
        for lab, pair, keys in zip(("predicted", "filtered", "smoothed"), st, (("mp", "Pp"), ("mf", "Pf"), ("ms", "Ps"))):
            for a, k in zip(pair, keys):
                i = 0 if isinstance(p.K, int) else A.gen_index(p.K, 2)
                w.eq(f"{lab} states handed on", at(M.AA(a), i), at(o[k], i))
        again = w.meth(c, "condition", D.y)
        for i in p.points():
            w.eq("residual when the conditioned process is conditioned again", at(M.AA(o["resid"][1]), i),
                 arr0(add(at(D.y, i).get(()), neg(lift(p.mu(p.X, i))))))
            wm, _ = p.at_data(i)
            p.check("mean of the process conditioned again", w.attr(w.attr(again, "gp"), "loc"), wm, i, p.mu(p.X, i))
        w.meth(c, "log_probability", D.y)
        for i in p.points():
            w.eq("residual when the conditioned process is asked for its likelihood", at(M.AA(o["resid"][-1]), i),
                 arr0(add(at(D.y, i).get(()), neg(lift(p.mu(p.X, i))))))
    R.obl(f"{nm}: residuals and states", f, w_gp, limit=3000)
    for k in pts:
        def f(w, k=k):
            p = Process(w, sol, 1, n, mean=mean)
            D = p.D
            c = w.attr(w.meth(p.gp, "condition", D.y), "gp")
            i = p.points()[k]
            wm, wP = p.at_data(i)
            mu = p.mu(p.X, i)
            p.lengths("conditional mean and variance", D.n, w.attr(c, "loc"), w.attr(c, "variance"))
            p.check("conditional mean", w.attr(c, "loc"), wm, i, mu)
            p.check("conditional variance", w.attr(c, "variance"), wP, i)
            if w.mis:
                return
            pm, pv = w.parts("prediction with its variance", w.meth(c, "predict", return_var=True), 2)
            p.check("prediction at the data: mean", pm, wm, i, mu)
            p.check("prediction at the data: variance", pv, wP, i)
            p.check("prediction at the data without variance", w.meth(c, "predict"), wm, i, mu)
            pm, pv = w.parts("prediction with its variance", w.meth(p.gp, "predict", None, D.y, return_var=True), 2)
            p.check("prediction of the unconditioned process: mean", pm, wm, i, mu)
            p.check("prediction of the unconditioned process: variance", pv, wP, i)
            c0 = w.attr(w.meth(p.gp, "condition", D.y, include_mean=False), "gp")
            p.check("conditional mean without the mean function", w.attr(c0, "loc"), wm, i)
            p.check("conditional variance without the mean function", w.attr(c0, "variance"), wP, i)
        R.obl(f"{nm}: {PTS[k] if n is None else 'point ' + str(k)}", f, w_st, limit=3000)


def requested(R, sol, mean):
    for k in range(3):
        def f(w, k=k):
            p = Process(w, sol, 1, None, mean=mean)
            D = p.D
            ts = A.Arr((D.K,), fn=lambda i: D.time(i)) if integ(sol) else D.t
            Q = Requests(w, D, ts, tuple_coords=integ(sol))
            _, j = Q.positions()[k]
            Q.place[A.idx_key(j)] = ("between", A.gen_index(p.K, 1))
            m, P = w.parts("prediction of the solver", w.meth(p.solver, "predict", Q.X, w.meth(p.solver, "condition", D.y)), 2)
            wm, wP = p.seen(Q.X, j, at(M.AA(m), j), at(M.AA(P), j))
            mu = p.mu(Q.X, j)
            c = w.attr(w.meth(p.gp, "condition", D.y), "gp")
            pm, pv = w.parts("prediction with its variance", w.meth(c, "predict", Q.X, return_var=True), 2)
            p.lengths("prediction", Q.m, pm, pv)
            p.check("predicted mean", pm, wm, j, mu)
            p.check("predicted variance", pv, wP, j)
            p.check("predicted mean alone", w.meth(c, "predict", Q.X), wm, j, mu)
            if w.mis:
                return
            pm, pv = w.parts("prediction with its variance", w.meth(p.gp, "predict", Q.X, D.y, return_var=True), 2)
            p.check("mean predicted by the unconditioned process", pm, wm, j, mu)
            p.check("variance predicted by the unconditioned process", pv, wP, j)
            q = w.attr(w.meth(p.gp, "condition", D.y, Q.X), "gp")
            p.check("mean of the process conditioned at test coordinates", w.attr(q, "loc"), wm, j, mu)
            p.check("variance of the process conditioned at test coordinates", w.attr(q, "variance"), wP, j)
            w.meth(q, "log_probability", D.y)
            for i in p.points():
                w.eq("residual when the process conditioned at test coordinates is asked for its likelihood", at(M.AA(p.o["resid"][-1]), i),
                     arr0(add(at(D.y, i).get(()), neg(lift(p.mu(p.X, i))))))
            i = p.points()[k]
            cm, cP = p.at_data(i)
            gm, gv = w.parts("component with its variance", w.meth(q, "get_component_mean", p.names[0], return_var=True), 2)
            p.check("component mean at the data, process conditioned at test coordinates", gm, cm, i)
            p.check("component variance at the data, process conditioned at test coordinates", gv, cP, i)
            a = w.attr(w.meth(q, "condition", D.y), "gp")
            p.lengths("mean and variance of the process conditioned at test coordinates, then at the data", D.n, w.attr(a, "loc"), w.attr(a, "variance"))
            if w.mis:
                return
            p.check("mean of the process conditioned at test coordinates, then at the data", w.attr(a, "loc"), cm, i, p.mu(p.X, i))
            p.check("variance of the process conditioned at test coordinates, then at the data", w.attr(a, "variance"), cP, i)
            gm, gv = w.parts("component with its variance", w.meth(a, "get_component_mean", p.names[0], return_var=True), 2)
            p.check("component of the process conditioned at test coordinates, then at the data", gm, cm, i)
            a = w.attr(w.meth(q, "condition", D.y, Q.X), "gp")
            p.check("mean of the process conditioned at test coordinates twice", w.attr(a, "loc"), wm, j, mu)
            p.check("variance of the process conditioned at test coordinates twice", w.attr(a, "variance"), wP, j)
            q = w.attr(w.meth(p.gp, "condition", D.y, Q.X, include_mean=False), "gp")
            p.check("mean at test coordinates without the mean function", w.attr(q, "loc"), wm, j)
            h = generic.H("own", p.dim, p.coord(Q.X, j))
            gm, gv = w.parts("prediction with its variance", w.meth(c, "predict", Q.X, observation_model=opaque_model(w, p.dim), return_var=True), 2)
            if mean == "none":
                p.check("own observation model, predicted mean", gm, mm(h, at(M.AA(m), j)), j)
            p.check("own observation model, predicted variance", gv, mm(h, at(M.AA(P), j), T(h)), j)
            s = w.meth(c, "predict", Q.X, return_full_state=True)
            w.eq("full predicted mean", at(M.AA(w.attr(s, "mean")), j), at(M.AA(m), j))
            w.eq("full predicted covariance", at(M.AA(w.attr(s, "cov")), j), at(M.AA(P), j))
            p.check("variance of the full predicted state", w.attr(s, "variance"), wP, j)
            if mean == "none":
                p.check("mean of the full predicted state", w.attr(s, "loc"), wm, j)
            for what, got in (("mean", w.meth(s, "project_mean", opaque_model(w, p.dim))),
                              ("variance", w.meth(s, "project_variance", opaque_model(w, p.dim)))):
                h = generic.H("own", p.dim, p.coord(Q.X, j))
                p.check(f"own observation model, {what}", got, mm(h, at(M.AA(m), j)) if what == "mean" else mm(h, at(M.AA(P), j), T(h)), j)
        R.obl(f"{sol}, any N, mean {mean}: at {PTS[k]} requested coordinate", f, "smolgp.gp.GaussianProcess.predict", limit=3000)


def opaque_model(w, d):
    return I.Builtin("own", lambda X: generic.H("own", d, X))


def run(R):
    for sol in SOLVERS:
        for n in (None, 1, 2) if R.tier == "quick" else (None, 1, 2, 3):
            at_data(R, sol, n, "function")
        at_data(R, sol, None, "constant")
        at_data(R, sol, None, "none")
        for mean in ("function", "none"):
            requested(R, sol, mean)
    return R.finish("proof", {"explanation":
        "with the states of filter and smoother left opaque, every reported value is the projection of the state of that very observation "
        "(or request) through the observation model at its own coordinates, plus the mean there exactly once"}, 40)
