"""Lyapunov stationarity: F P + P F^T + L Qc L^T = 0 for every kernel and composition."""
from ..api import *
from .. import catalog, compose


def where(w, k):
    return f"{k.cls.module.path.replace(REPO + '/', '')}: class {k.cls.name}"


def run(R):
    R.assume.append("kernel parameters are strictly positive")
    cases = [(s.name, (lambda s: lambda w: s.build(w, w.get(s.cls)))(s), s.cls) for s in catalog.leaf_specs(R.tier == "thorough")]
    cases += compose.cases(R.tier)
    for name, build, cls in cases:
        def f(w, build=build, name=name):
            k = build(w)
            F, P = w.meth(k, "design_matrix"), w.meth(k, "stationary_covariance")
            L, Qc = w.meth(k, "noise_effect_matrix"), w.meth(k, "noise")
            n = w.attr(k, "dimension")
            F, P, L, Qc = M.AA(F), M.AA(P), M.AA(L), M.AA(Qc)
            n = n if isinstance(n, int) else w.it.as_int(n)
            w.eqb("dimension equals the order of F", tuple(F.shape), (n, n))
            w.eqb("dimension equals the order of Pinf", tuple(P.shape), (n, n))
            w.eq("Pinf is symmetric", P, T(P))
            r = plus(plus(mm(F, P), mm(P, T(F))), mm(mm(L, Qc), T(L)))
            w.eq("F Pinf + Pinf F^T + L Qc L^T", r, A.full((n, n), 0))
        R.obl(f"{name}: continuous Lyapunov equation", f, cls)
    return R.finish("proof", {"explanation":
        "value-numbering abstract interpretation of design_matrix / stationary_covariance / noise / "
        "noise_effect_matrix of every documented kernel and of generic compositions, for all parameter values"}, 18)
