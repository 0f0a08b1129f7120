"""Sequential Kalman filter: exact one-step relation at every position, for an arbitrary model."""
from ..api import *
from .. import generic
from ..solverlib import *


def run(R):
    cls = SOLVERS["StateSpaceSolver"]
    dims = (1, 2) if R.tier == "quick" else (1, 2, 3)
    for d in dims:
        for hm in ("coord", "const"):
            for n in sizes(R.tier):
                if hm == "const" and n is not None:
                    continue

                def f(w, d=d, hm=hm, n=n):
                    D = Data(w, n)
                    k = generic.kernel(w, "g", d, hmode=hm)
                    s = w.call(cls, k, D.t, D.diag_noise())
                    out = tup(w, w.meth(s, "Kalman", D.y, return_v_S=True), "filter result")
                    if out is None or not w.eqb("filter returns means, covariances and innovations", len(out), 6):
                        return
                    filter_relation(w, D, "g", d, hm, out)
                    if n is not None and n > 2:
                        return
                    four = tup(w, w.meth(s, "Kalman", D.y), "filter result without innovations")
                    if four is not None and w.eqb("filter without innovations returns four arrays", len(four), 4):
                        for nm, x, y in zip(("filtered mean", "filtered covariance", "predicted mean", "predicted covariance"), four, out):
                            for lab, i in D.positions():
                                w.eq(f"{lab}: {nm} without innovations", at(x, i), at(y, i))
                R.obl(f"filter recursion, order {d}, {hm} observation, {label(n)}", f, "smolgp.solvers.solver.StateSpaceSolver.Kalman")

    # conditioning (the solver's and the process's) reports the same filtered and predicted states
    for n in (None, 1, 2):
        def f(w, n=n):
            D = Data(w, n)
            k = generic.kernel(w, "g", 2)
            s = w.call(cls, k, D.t, D.diag_noise())
            coords, cs, vS = w.meth(s, "condition", D.y, return_v_S=True)
            (mp, Pp), (m, P), _ = cs
            filter_relation(w, D, "g", 2, "coord", (m, P, mp, Pp) + tuple(vS))
        R.obl(f"states reported by conditioning, {label(n)}", f, "smolgp.solvers.solver.StateSpaceSolver.condition")

    # a sum and a product of arbitrary models: block and Kronecker structured matrices reach the filter
    for op in ("__add__", "__mul__"):
        def f(w, op=op):
            D = Data(w)
            k = w.meth(generic.kernel(w, "g", 1, name="a"), op, generic.kernel(w, "h", 1, name="b"))
            s = w.call(cls, k, D.t, D.diag_noise())
            composed_relation(w, D, op, w.meth(s, "Kalman", D.y, return_v_S=True))
        R.obl(f"filter recursion of a {'sum' if op == '__add__' else 'product'} of two arbitrary models", f,
              "smolgp.solvers.kalman.KalmanFilter")
    return R.finish("proof", {"explanation":
        "one-step relation of the filter recurrence (initial value, generic interior step, boundary positions), "
        "for opaque transition, process noise, prior and observation"}, 8)

