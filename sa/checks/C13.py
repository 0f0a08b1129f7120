"""Process noise of every stationary kernel: Q = Pinf - A Pinf A^T."""
from ..api import *
from .. import catalog, compose, num as N


def run(R):
    R.assume.append("kernel parameters are strictly positive; lags are non-negative")
    R.assume.append("magnitudes below the kernels' 1e-14 underflow guard may be flushed to zero")
    cases = [(s.name, (lambda s: lambda w: s.build(w, w.get(s.cls)))(s), s.cls, s) for s in catalog.leaf_specs(R.tier == "thorough")]
    cases += [(n, bld, c, None) for n, bld, c in compose.cases(R.tier)]
    for name, build, cls, s in cases:
        def f(w, build=build):
            k = build(w)
            dt, t1 = N.lag(), atom("t1")
            P = M.AA(w.meth(k, "stationary_covariance"))
            for a, b in ((const(0), dt), (t1, add(t1, dt))):
                Am = M.AA(w.meth(k, "transition_matrix", arr0(a), arr0(b)))
                Q = M.AA(w.meth(k, "process_noise", arr0(a), arr0(b)))
                w.eq("Q = Pinf - A Pinf A^T", Q, minus(P, mm(Am, P, T(Am))))
            w.eq("zero at zero lag", M.AA(w.meth(k, "process_noise", arr0(t1), arr0(t1))), A.full(P.shape, 0))
        R.obl(f"{name}: process noise", f, cls)

    # the Van Loan alternative agrees
    for name, build, cls, s in cases:
        if s is None:
            continue

        def f(w, build=build):
            k = build(w)
            from ..interp import BoundMethod
            base = w.get("smolgp.kernels.base.StateSpaceModel")
            fn, _ = base.lookup("process_noise")
            dt = N.lag()
            q1 = w.it.call(BoundMethod(fn, k), [arr0(const(0)), arr0(dt)], {"use_van_loan": True})
            q2 = w.it.call(BoundMethod(fn, k), [arr0(const(0)), arr0(dt)], {})
            w.eq("Van Loan process noise", q1, q2)
        R.obl(f"{name}: generic process noise by Van Loan and by stationarity", f, "smolgp.kernels.base.StateSpaceModel.process_noise")
    return R.finish("proof", {"explanation":
        "process_noise as an exact power series in the lag, compared entrywise with Pinf - A Pinf A^T"}, 35)
