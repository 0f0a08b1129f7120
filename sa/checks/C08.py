"""Parallel integrated solver: the same recursion as the sequential one, from associative operators."""
from .C07 import obligations
from .C05 import assoc_logged


def run(R):
    obligations(R, "ParallelIntegratedStateSpaceSolver", (1,) if R.tier == "quick" else (1, 2),
                "smolgp.solvers.integrated.parallel.kalman / rts", after=lambda w: assoc_logged(w, "filter and smoother"))
    return R.finish("proof", {"explanation":
        "the parallel scans are recurrences of their operators; at an arbitrary state of an arbitrary interleaving their outputs satisfy "
        "the sequential reset/update/smoothing relation, and the operators are associative on generic elements with their invariants"}, 7)
