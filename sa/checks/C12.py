"""Transition matrices: A(t,t)=I, A' = F A, dependence on the lag only."""
from ..api import *
from .. import catalog, compose, num as N


def run(R):
    R.assume.append("kernel parameters are strictly positive; lags are non-negative")
    cases = [(s.name, (lambda s: lambda w: s.build(w, w.get(s.cls)))(s), s.cls) for s in catalog.leaf_specs(R.tier == "thorough")]
    cases += [(s.name, (lambda s: lambda w: s.build(w, w.get(s.cls)))(s), s.cls) for s in catalog.integrated_specs()]
    cases += [(s.name + "[3 instruments]", (lambda s: lambda w: s.build(w, w.get(s.cls), num_insts=3))(s), s.cls)
              for s in catalog.integrated_specs()]
    cases += compose.cases(R.tier)
    for name, build, cls in cases:
        def f(w, build=build):
            k = build(w)
            F = M.AA(w.meth(k, "design_matrix"))
            n = F.shape[0]
            dt = N.lag()
            t1 = atom("t1")
            A1 = M.AA(w.meth(k, "transition_matrix", arr0(const(0)), arr0(dt)))
            A2 = M.AA(w.meth(k, "transition_matrix", arr0(t1), arr0(add(t1, dt))))
            w.eq("depends only on the lag", A2, A1)
            w.eqb("shape", tuple(A1.shape), (n, n))
            for z in (const(0), t1):
                w.eq("identity at zero lag", M.AA(w.meth(k, "transition_matrix", arr0(z), arr0(z))), A.eye(n))
            w.eq("python number coordinates", M.AA(w.meth(k, "transition_matrix", 0, 0)), A.eye(n))
            I0 = A.eye(n).force()
            for i, (x, y) in enumerate(zip(A1.force().flat, I0.flat)):
                if A.num(x).p[0] != A.num(y).p[0]:
                    w.bad("limit at zero lag", f"entry {divmod(i, n)} tends to {show(x)[:120]} at lag 0, not to the identity")
                    break
            ok, i = eq_deriv(A1, mm(F, A1), N.KSER - 4)
            if not ok:
                w.bad("d/dlag A = F A", f"entry {list(divmod(i, n))} = {show(A1.force().flat[i])[:160]} does not solve the state equation")
        R.obl(f"{name}: transition matrix", f, cls)
    return R.finish("proof", {"explanation":
        "transition_matrix as an exact power series in the lag: compared with the solution of the state equation"}, 30)
