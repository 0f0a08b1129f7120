"""Integrated (exposure-averaged) models: augmentation, resets, noise, observation."""
from ..api import *
from .. import catalog, generic, num as N
from ..num import S, P as PR


def series(p):
    p = list(p)
    while len(p) > 1 and p[-1] == 0:
        p.pop()
    return S(tuple(p), 0, 0, "spec", ())


def integral(a):
    """entrywise integral of a lag-series array from 0"""
    d = a.force().copy()
    for idx in __import__("itertools").product(*[range(n) for n in d.shape]):
        p = A.num(d[idx]).p
        d[idx] = series([0] + [p[k] * pow(k + 1, -1, PR) % PR for k in range(min(len(p), N.KSER - 1))])
    return A.from_np(d)


def put(base, n, rows):
    """[[base, 0], [rows, 0]] of order n"""
    d = base.shape[0]
    b = base.force()
    return mat([[A.num(b[i, j]) if i < d and j < d else (rows[j] if i >= d and j < d else const(0))
                 for j in range(n)] for i in range(n)])


def aug_checks(w, k, base, ninst, facts_scale=None, tag=""):
    F, Pb, L, Qc = (M.AA(w.meth(base, m)) for m in ("design_matrix", "stationary_covariance", "noise_effect_matrix", "noise"))
    d = F.shape[0]
    n = d + ninst
    w.eqb("augmented dimension", w.attr(k, "dimension"), n)
    h = [A.num(M.AA(w.meth(base, "observation_model", arr0(const(0)))).get((0, j))) for j in range(d)]
    Fa = put(F, n, h)
    w.eq("augmented feedback matrix: each integral state accumulates the observed process", w.meth(k, "design_matrix"), Fa)
    Pa = M.AA(w.meth(k, "stationary_covariance"))
    w.eq("base block of Pinf", A.getitem(Pa, (slice(0, d), slice(0, d))), Pb)
    w.eq("integral states start uncorrelated with the process", A.getitem(Pa, (slice(0, d), slice(d, n))), A.full((d, ninst), 0))
    w.eq("Pinf symmetric", Pa, T(Pa))
    B = mm(L, Qc, T(L))
    Ba = put(B, n, [const(0)] * d)
    La, Qa = M.AA(w.meth(k, "noise_effect_matrix")), M.AA(w.meth(k, "noise"))
    w.eq("white noise drives only the process", mm(La, Qa, T(La)), Ba)
    # exact propagation
    dt, t1 = N.lag(), atom("t1")
    Aspec = A.from_np(A.expm_np(A.elementwise(lambda x: mul(A.num(x), dt), Fa).force()))
    Qspec = integral(mm(Aspec, Ba, T(Aspec)))
    for i in range(n):
        q = A.num(Qspec.get((i, i)))
        if not q.iszero:
            # the variance of an integral is positive, in whatever units it is expressed
            for u in (facts_scale or [const(1)]):
                ctx().fact(mul(q, u), {1})
    for a, b in ((const(0), dt), (t1, add(t1, dt))):
        w.eq("transition matrix", w.meth(k, "transition_matrix", arr0(a), arr0(b)), Aspec)
        w.eq("process noise", w.meth(k, "process_noise", arr0(a), arr0(b)), Qspec)
    w.eq("process noise at zero lag", w.meth(k, "process_noise", arr0(t1), arr0(t1)), A.full((n, n), 0))
    w.eq("process noise, numerical path", w.meth(k, "process_noise", arr0(const(0)), arr0(dt), force_numerical=True), Qspec)
    # resets and observation
    for inst in range(ninst):
        i = arr0(const(inst))
        R_ = mat([[const(1 if a == b and a != d + inst else 0) for b in range(n)] for a in range(n)])
        w.eq(f"reset of instrument {inst}", w.meth(k, "reset_matrix", i), R_)
        w.eq(f"reset of instrument {inst} (python int)", w.meth(k, "reset_matrix", inst), R_)
        dl = pos("delta")
        row = mat([[N.inv(dl) if a == d + inst else const(0) for a in range(n)]])
        for form in (tuple, list):
            X = form([arr0(t1), arr0(dl), i])
            w.eq(f"exposure average of instrument {inst}", w.meth(k, "observation_matrix", X), row)
            w.eq(f"exposure average of instrument {inst} (model)", w.meth(k, "observation_model", X), row)
        lat = mat([h + [const(0)] * ninst])
        w.eq("zero exposure time observes the process itself",
             w.meth(k, "observation_model", (arr0(t1), arr0(const(0)), i)), lat)
        w.eq("plain coordinate observes the process itself", w.meth(k, "observation_model", arr0(t1)), lat)
    w.eq("sortable coordinate of a tuple", w.meth(k, "coord_to_sortable", (arr0(t1), arr0(dt), arr0(const(0)))), arr0(t1))
    w.eq("sortable coordinate of a number", w.meth(k, "coord_to_sortable", arr0(t1)), arr0(t1))


def run(R):
    R.assume += ["kernel parameters are strictly positive; lags and exposure times are non-negative",
                 "magnitudes below the kernels' 1e-14 underflow guard may be flushed to zero"]
    insts = (1, 2, 3) if R.tier == "quick" else (1, 2, 3, 4, 5)
    for s in catalog.integrated_specs():
        for ni in insts:
            def f(w, s=s, ni=ni):
                k = s.build(w, w.get(s.cls), num_insts=ni)
                base = s.build(w, w.get(s.base))
                sg = pos("sigma")
                units = [const(1)]
                for base_, es in ((sg, (0, -2)), (pos("omega"), (0, 1, 2, 3)), (catalog.sho_q("underdamped"), (0, 1, 2)), (const(2), (0, 1, 2))):
                    units = [mul(u, N.ipow(base_, e)) for u in units for e in es]
                aug_checks(w, k, base, ni, units if "SHO[under" in s.name else None)
            R.obl(f"{s.name}, {ni} instrument(s): augmented model", f, s.cls)

    # an arbitrary base model through the generic augmentation
    def arb(w, ni, d):
        generic.install(w)
        import ast
        from .. import interp as I
        if "sa_int" not in w.it.modules:
            m = I.Module("sa_int", "/verif/sa/checks/C16.py", w.it)
            w.it.modules["sa_int"] = m
            m.loaded = True
            m.tree = ast.parse("""
from smolgp.kernels.integrated import IntegratedStateSpaceModel
class Derived(IntegratedStateSpaceModel):
    def __init__(self, base, num_insts, name="d"):
        self.base_model = base
        self.num_insts = num_insts
        self.name = name
""")
            w.it.exec_block(m.tree.body, m.env)
        base = generic.kernel(w, "g", d, hmode="e1")
        return base, w.call(w.it.modules["sa_int"].env.vars["Derived"], base, ni)
    for d in (1, 2, 3):
        for ni in (1, 2):
            def f(w, d=d, ni=ni):
                import types
                base, k = arb(w, ni, d)
                # Qc of the generic model is d x d with L = I: use the multi-column noise of the base
                F, L, Qc = (M.AA(w.meth(base, m)) for m in ("design_matrix", "noise_effect_matrix", "noise"))
                dt = N.lag()
                h = [const(1)] + [const(0)] * (d - 1)
                n = d + ni
                Fa = put(F, n, h)
                Ba = put(mm(L, Qc, T(L)), n, [const(0)] * d)
                Aspec = A.from_np(A.expm_np(A.elementwise(lambda x: mul(A.num(x), dt), Fa).force()))
                Qspec = integral(mm(Aspec, Ba, T(Aspec)))
                w.eq("transition matrix", w.meth(k, "transition_matrix", arr0(const(0)), arr0(dt)), Aspec)
                w.eq("process noise", w.meth(k, "process_noise", arr0(const(0)), arr0(dt)), Qspec)
            R.obl(f"arbitrary base model of order {d}, {ni} instrument(s): augmented propagation", f,
                  "smolgp.kernels.integrated.IntegratedStateSpaceModel")

    # helper functions for arbitrary matrices
    for d, q in ((1, 1), (2, 1), (2, 2), (3, 1)):
        def f(w, d=d, q=q):
            F, L, Qc = matrix("F", d), matrix("L", d, q), matrix("Qc", q, sym=True)
            dt = N.lag()
            E = A.from_np(A.expm_np(A.elementwise(lambda x: mul(A.num(x), dt), F).force()))
            B = mm(L, Qc, T(L))
            Q = integral(mm(E, B, T(E)))
            Ph = integral(E)
            w.eq("Q_from_VanLoan", w.call("smolgp.helpers.Q_from_VanLoan", F, L, Qc, arr0(dt)), Q)
            w.eq("Phibar_from_VanLoan", w.call("smolgp.helpers.Phibar_from_VanLoan", F, arr0(dt)), Ph)
            v = w.call("smolgp.helpers.VanLoan", F, L, Qc, arr0(dt))
            F3 = M.AA(v["F3"])
            w.eq("VanLoan F3 = exp(F dt)^T", F3, T(E))
            w.eq("VanLoan: F3^T G2 = int e^{Fs} B e^{F's} ds", mm(T(F3), M.AA(v["G2"])), Q)
            w.eq("VanLoan: F3^T H2 = cross covariance of process and its integral", mm(T(F3), M.AA(v["H2"])),
                 integral(mm(E, B, T(Ph))))
            K = mm(T(F3), M.AA(v["K1"]))
            w.eq("VanLoan: F3^T K1 + transpose = covariance of the integral", plus(K, T(K)), integral(mm(Ph, B, T(Ph))))
        R.obl(f"Van Loan helpers for arbitrary F of order {d}, {q} noise column(s)", f, "smolgp.helpers")
    return R.finish("proof", {"explanation":
        "augmented F, A, Q, H, reset of every integrated kernel compared with the exact joint process / integral model, "
        "as power series in the lag"}, 28)
