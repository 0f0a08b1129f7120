"""Parallel solver: same recursion as the sequential one, from associative operators."""
from ..api import *
from .. import generic
from ..solverlib import *


def assoc_logged(w, what):
    got = [x for x in w.c.log if x[0] == "assoc"]
    if not got:
        return
    for _, site, ok in got:
        if not ok:
            w.bad(f"associativity of {site.split('.')[-1]}",
                  f"combining three generic elements of {site} depends on the bracketing")


def run(R):
    cls = SOLVERS["ParallelStateSpaceSolver"]
    dims = (1, 2) if R.tier == "quick" else (1, 2, 3)
    for d in dims:
        for hm in ("coord", "const"):
            for n in sizes(R.tier):
                if hm == "const" and n is not None:
                    continue

                def f(w, d=d, hm=hm, n=n):
                    D = Data(w, n)
                    s = w.call(cls, generic.kernel(w, "g", d, hmode=hm), D.t, D.diag_noise())
                    out = tup(w, w.meth(s, "Kalman", D.y, return_v_S=True), "filter result")
                    if out is None or not w.eqb("filter returns means, covariances and innovations", len(out), 6):
                        return
                    filter_relation(w, D, "g", d, hm, out)
                    assoc_logged(w, "filter")
                R.obl(f"parallel filter equals the filter recursion, order {d}, {hm} observation, {label(n)}", f,
                      "smolgp.solvers.parallel.kalman.ParallelKalmanFilter")

                def f(w, d=d, hm=hm, n=n):
                    D = Data(w, n)
                    s = w.call(cls, generic.kernel(w, "g", d, hmode=hm), D.t, D.diag_noise())
                    m, P, mp, Pp = filtered_states(w, D, "g", d)
                    sm = tup(w, w.meth(s, "RTS", (m, P)), "smoother result")
                    if sm is None:
                        return
                    smoother_relation(w, D, "g", d, (m, P, mp, Pp), sm[-2:])
                    assoc_logged(w, "smoother")
                R.obl(f"parallel smoother equals the smoother recursion, order {d}, {hm} observation, {label(n)}", f,
                      "smolgp.solvers.parallel.rts.ParallelRTSSmoother")

    for n in (None, 1, 2, 3):
        for rv in (True, False):
            def f(w, n=n, rv=rv):
                D = Data(w, n)
                s = w.call(cls, generic.kernel(w, "g", 1), D.t, D.diag_noise())
                coords, cs, vS = w.meth(s, "condition", D.y, return_v_S=rv)
                (mp, Pp), (m, P), sm = cs
                filter_relation(w, D, "g", 1, "coord", (m, P, mp, Pp) + (tuple(vS) if rv else (None, None)))
                smoother_relation(w, D, "g", 1, (m, P, mp, Pp), sm)
            R.obl(f"conditioning {'with' if rv else 'without'} innovations, {label(n)}", f,
                  "smolgp.solvers.parallel.solver.ParallelStateSpaceSolver.condition")
    for op in ("__add__", "__mul__"):
        def f(w, op=op):
            D = Data(w, None)
            k = w.meth(generic.kernel(w, "g", 1, name="a"), op, generic.kernel(w, "h", 1, name="b"))
            outs = []
            for s in ("StateSpaceSolver", "ParallelStateSpaceSolver"):
                s = w.call(SOLVERS[s], k, D.t, D.diag_noise())
                outs.append(w.meth(s, "Kalman", D.y, return_v_S=True))
            composed_relation(w, D, op, outs[1])
        R.obl(f"parallel filter of a {'sum' if op == '__add__' else 'product'} of arbitrary models", f,
              "smolgp.solvers.parallel.kalman.ParallelKalmanFilter")
    return R.finish("proof", {"explanation":
        "the parallel scans are recurrences of their operator; their outputs satisfy the sequential relation at every position, "
        "and the operators are associative on generic elements with the invariants of the scanned ones (so any schedule agrees)"}, 20)
