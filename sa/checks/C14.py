"""Covariance function of every documented kernel = its documented closed form."""
from ..api import *
from .. import catalog, generic, compose, num as N


def run(R):
    R.assume.append("kernel parameters are strictly positive")
    R.assume.append("Bessel coefficients of ExpSineSquared: a partial sum with between 12 and 120 terms is accepted "
                    "(truncation accuracy is a floating point matter)")
    for s in catalog.leaf_specs(R.tier == "thorough"):
        def f(w, s=s):
            k = s.build(w, w.get(s.cls))
            t, dt = atom("t"), N.lag()
            fwd = M.AA(w.meth(k, "evaluate", arr0(t), arr0(add(t, dt))))
            bwd = M.AA(w.meth(k, "evaluate", arr0(add(t, dt)), arr0(t)))
            zero = M.AA(w.meth(k, "evaluate", arr0(t), arr0(t)))
            dg = M.AA(w.meth(k, "evaluate_diag", arr0(t)))
            cands = [s.k] if not isinstance(s.k, tuple) else [s.k[1](s.k[0], T_) for T_ in range(12, 121)]
            sp = cands[0]
            if len(cands) > 1:
                for c in cands:
                    if A.num(zero.get(())).same(c(const(0))):
                        sp = c
                        break
            w.eq("k(t, t+lag)", fwd, arr0(sp(dt)))
            w.eq("k(t+lag, t)", bwd, arr0(sp(dt)))
            w.eq("k(t, t)", zero, arr0(sp(const(0))))
            w.eq("variance (evaluate_diag)", dg, arr0(sp(const(0))))
            w.eqb("dimension", w.attr(k, "dimension"), s.dim)
        R.obl(f"{s.name}: covariance function", f, s.cls)

    # an arbitrary model: k(x1,x2) = h1 A(x2->x1) P h2^T for x1 >= x2, symmetric, valid for
    # coordinate dependent observation vectors; matrices built by the kernel object agree
    for hm in ("coord", "const"):
        def f(w, hm=hm):
            k = generic.kernel(w, "g", 2, hmode=hm)
            t, dt = atom("t"), pos("lagv")
            t2 = add(t, dt)
            h1, h2 = generic.H("g", 2, arr0(t), hm), generic.H("g", 2, arr0(t2), hm)
            Am, P = generic.Amat("g", 2, t, t2), generic.P("g", 2)
            want = A.getitem(mm(h2, Am, P, T(h1)), (0, 0))
            w.eq("k(t, t+lag)", w.meth(k, "evaluate", arr0(t), arr0(t2)), want)
            w.eq("k(t+lag, t)", w.meth(k, "evaluate", arr0(t2), arr0(t)), want)
            w.eq("k(t, t)", w.meth(k, "evaluate", arr0(t), arr0(t)), A.getitem(mm(h1, P, T(h1)), (0, 0)))
            w.eq("variance", w.meth(k, "evaluate_diag", arr0(t)), A.getitem(mm(h1, P, T(h1)), (0, 0)))
            X = A.stack([arr0(t), arr0(t2)])
            K = M.AA(w.call(k, X, X))
            w.eqb("kernel matrix shape", tuple(K.shape), (2, 2))
            w.eq("kernel matrix is symmetric", K, T(K))
            w.eq("kernel matrix entry", A.getitem(K, (0, 1)), want)
            w.eq("kernel diagonal", w.call(k, X), A.stack([A.getitem(K, (0, 0)), A.getitem(K, (1, 1))]))
        R.obl(f"arbitrary state space model, {hm} observation vector: covariance function", f,
              "smolgp.kernels.base.StateSpaceModel.evaluate")
    return R.finish("proof", {"explanation":
        "evaluate / evaluate_diag / __call__ as power series in the lag, compared with the documented closed forms"}, 16)
