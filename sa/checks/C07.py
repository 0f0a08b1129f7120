"""Sequential integrated solver: resets at starts, updates at ends, smoothing through both."""
from ..api import *
from .. import catalog, generic
from ..solverlib import SOLVERS, tup, label
from ..exposures import *
from .. import exposures as X

POSITIONS = ["state 0", "state 1", "interior state", "state K-2", "state K-1"]
SEQ = "IntegratedStateSpaceSolver"


def obligations(R, sol, dims, where, after=None):
    def conditioned(w, d, n, rv, noise=True):
        D = Exposures(w, n)
        s = w.call(SOLVERS[sol], generic.integrated(w, "gi", d), D.X, D.diag_noise() if noise else None)
        res = tup(w, w.meth(s, "condition", D.y, return_v_S=rv), "condition")
        if res is None:
            return None
        coords, ((mp, Pp), (m, P), sm), vS = res
        D.read_literal(w, coords)
        return D, Model("gi", d + 1), (m, P, mp, Pp), sm, vS

    for d in dims:
        for n in (None, 1, 2):
            if n == 2 and d > dims[0]:
                continue
            for j in range(len(POSITIONS) if n is None else 2 * n):
                def f(w, d=d, n=n, j=j):
                    r = conditioned(w, d, n, False)
                    if r is None:
                        return
                    D, mod, out, sm, vS = r
                    w.eqb("no innovations were asked for", vS is None, True)
                    X.filter_relation(w, D, mod, out, positions=[D.positions()[j]])
                    if not w.mis:
                        X.smoother_relation(w, D, mod, out, sm, positions=[D.positions()[j]])
                    if after:
                        after(w)
                lab = POSITIONS[j] if n is None else f"state {j}"
                R.obl(f"recursion through resets and updates, base order {d}, {label(n)}, {lab}", f, where, limit=3000)
            for j in range(3 if n is None else n):
                for noise in (True, False):
                    if not noise and n is not None:
                        continue

                    def f(w, d=d, n=n, j=j, noise=noise):
                        r = conditioned(w, d, n, True, noise)
                        if r is not None:
                            D, mod, out, sm, vS = r
                            innovation_relation(w, D, mod, out, vS, noise, which=j)
                    R.obl(f"innovation {('0', 'k', 'N-1')[j] if n is None else j} belongs to its exposure end, base order {d}, {label(n)}"
                          f"{'' if noise else ', no noise model'}", f, where, limit=3000)

    def f(w):
        coords, (_, _, sm), _ = simultaneous_starts(w, sol)
        M.AA(sm[1]).get((0, 0, 0))
        M.AA(sm[1]).get((1, 0, 0))
    R.obl("smoothing when two exposures start at the same time", f, where, limit=3000)

    # the gains of the documented kernels exist
    for spec in catalog.integrated_specs():
        def f(w, spec=spec):
            w.c.hooks["isfinite"] = lambda x: True
            D = Exposures(w, 1)
            k = spec.build(w, w.get(spec.cls))
            s = w.call(SOLVERS[sol], k, D.X, D.diag_noise())
            D.read_literal(w, [M.AA(x) for x in w.attr(s, "state_coords")])
            try:
                coords, (_, _, sm), _ = w.meth(s, "condition", D.y)
                M.AA(sm[1]).get((0, 0, 0))
            except SingularMatrix:
                if not degenerate(w):
                    raise
        R.obl(f"smoothing an exposure with {spec.name}", f, where, limit=3000)


def degenerate(w):
    """is this partition one in which a hyperparameter expression clips a variance to nothing?"""
    for d, s in w.c.partition:
        if s <= 0 and any(x[0] not in ("t", "texp", "inst") for x in deps(d)):
            return True
    return False



def run(R):
    obligations(R, SEQ, (1, 2) if R.tier == "quick" else (1, 2, 3), "smolgp.solvers.integrated.kalman / rts")
    return R.finish("proof", {"explanation":
        "at an arbitrary state of an arbitrary interleaving, start and end explored, the outputs satisfy the reset/update recursion, "
        "the innovations belong to the exposure ends, and smoothing follows the backward recursion through resets"}, 7)
