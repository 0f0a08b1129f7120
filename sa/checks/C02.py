"""Sequential RTS smoother: backward relation at every position, for an arbitrary model."""
from ..api import *
from .. import generic
from ..solverlib import *


def run(R):
    cls = SOLVERS["StateSpaceSolver"]
    dims = (1, 2) if R.tier == "quick" else (1, 2, 3)
    for d in dims:
        for n in sizes(R.tier):
            def f(w, d=d, n=n):
                D = Data(w, n)
                k = generic.kernel(w, "g", d)
                s = w.call(cls, k, D.t, D.diag_noise())
                fl = filtered_states(w, D, "g", d)
                out = tup(w, w.meth(s, "RTS", fl), "smoother result")
                if out is None or not w.eqb("smoother returns means and covariances", len(out), 2):
                    return
                smoother_relation(w, D, "g", d, fl, out)
            R.obl(f"smoother recursion, order {d}, {label(n)}", f, "smolgp.solvers.rts.rts_smoother")
    # the smoother that conditioning runs is the one of the filter's own output
    for n in (None, 1, 2):
        def f(w, n=n):
            D = Data(w, n)
            k = generic.kernel(w, "g", 1)
            s = w.call(cls, k, D.t, D.diag_noise())
            for rv in (True, False):
                coords, cs, vS = w.meth(s, "condition", D.y, return_v_S=rv)
                (mp, Pp), (m, P), sm = cs
                smoother_relation(w, D, "g", 1, (m, P, mp, Pp), sm)
                if not rv:
                    w.eqb("no innovations unless requested", vS is None, True)
        R.obl(f"smoothed states reported by conditioning, {label(n)}", f, "smolgp.solvers.solver.StateSpaceSolver.condition")
    return R.finish("proof", {"explanation":
        "backward relation of the smoother at the last point, before it, at a generic interior point and at the start, "
        "for opaque models and arbitrary filter output; and that conditioning feeds the filter's output to it"}, 8)
