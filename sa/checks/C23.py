"""Spectral densities: the Fourier transform of the kernel's own covariance, for every kernel, composition and frequency."""
from ..api import *
from .. import catalog, compose, generic, num as N
from ..compose import g, addk
from ..solverlib import at, dn
from ..api import *

WHERE = "smolgp.kernels.base.StateSpaceModel.psd"


def elements(f, *xs):
    return M.elementwise(lambda *e: f(*[A.num(x) for x in e]), *xs)


def density(w, k, om):
    """S(omega) = 1/(2 pi) * Fourier transform of the covariance, in two independent ways"""
    F, P, L, Qc = [M.AA(w.meth(k, m)) for m in ("design_matrix", "stationary_covariance", "noise_effect_matrix", "noise")]
    H = M.AA(w.meth(k, "observation_matrix", arr0(const(0))))
    d = F.shape[0]
    two_pi = mul(const(2), N.pi())
    # driven linear system: H (F^2 + w^2)^-1 (F L Qc L^T F^T + w^2 L Qc L^T) (F^2 + w^2)^-T H^T
    G = A.linv(plus(mm(F, F), elements(lambda x: mul(x, mul(om, om)), A.eye(d))))
    D = mm(L, Qc, T(L))
    inner = plus(mm(F, D, T(F)), elements(lambda x: mul(x, mul(om, om)), D))
    s1 = mul(A.scal(A.reshape(mm(H, G, inner, T(G), T(H)), ())), N.inv(two_pi))
    # transform of H exp(F tau) Pinf H^T over both signs of tau
    R = A.linv(elements(lambda f, e: N.add(N.neg(f), N.cx(const(0), mul(om, e))) if e.const() != 0 else neg(f), F, A.eye(d)))
    s2 = mul(mul(const(2), N.real(A.scal(A.reshape(mm(H, R, P, T(H)), ())))), N.inv(two_pi))
    return s1, s2


def run(R):
    cases = [(s.name, (lambda s: lambda w: s.build(w, w.get(s.cls)))(s), s.cls) for s in catalog.leaf_specs(R.tier == "thorough")]
    cases += compose.cases(R.tier)
    for name, build, cls in cases:
        def f(w, build=build):
            k = build(w)
            m = atom("M", aff=True, integral=True, iv=N.Iv(Fraction(24), N.INF, False, True))
            om = A.Arr((m,), fn=lambda i: atom("om", A.idx_key(i)))
            pts = (0, A.gen_index(m, 3), dn(add(m, const(-1))))
            want = [density(w, k, A.num(om.get((i,)))) for i in pts]
            known = {x.key for s, _ in want for x in (s, mul(s, N.pi()), mul(s, mul(const(2), N.pi())))}
            w.c.hooks["nonneg"] = lambda x: x.key in known       # a density is never negative
            got = M.AA(w.meth(k, "psd", om))
            if not same_shape(got.shape, (m,)):
                w.bad("shape", f"densities at M frequencies have shape {pshape(got.shape)}")
                return
            for i, (s1, s2) in zip(pts, want):
                w.eq("density of the driven system", at(got, i), arr0(s1))
                w.eq("transform of the covariance", at(got, i), arr0(s2))
            one = pos("omega0")
            a, b = [M.AA(w.meth(k, "psd", A.Arr((1,), fn=lambda i, x=x: x))) for x in (one, neg(one))]
            w.eq("even in the frequency", a, b)
        R.obl(f"{name}: spectral density", f, cls)

    def psd(w, k):
        return A.num(at(M.AA(w.meth(k, "psd", A.Arr((1,), fn=lambda i: atom("om", 0)))), 0).get(()))
    c = lambda: compose.scl().get(())
    laws = {"sum": (addk(g("a"), g("b", 1)), lambda a, b, c: a + b),
            "sum with a scaled term": (addk(lambda w: w.it.binop("Mult", compose.scl(), g("a")(w)), g("b", 1)), lambda a, b, c: c * a + b),
            "scaled kernel": (lambda w: w.it.binop("Mult", compose.scl(), g("a")(w)), lambda a, b, c: c * a),
            "scaled sum": (lambda w: w.it.binop("Mult", addk(g("a"), g("b", 1))(w), compose.scl()), lambda a, b, c: c * (a + b))}
    for name, (build, want) in laws.items():
        def f(w, build=build, want=want):
            w.eq("", arr0(psd(w, build(w))), arr0(want(psd(w, g("a")(w)), psd(w, g("b", 1)(w)), c())))
        R.obl(f"{name}: density from the densities of its parts", f, WHERE)

    def dens(name, want, spec):
        def f(w):
            w.eq("", arr0(psd(w, spec.build(w, w.get(spec.cls)))), arr0(want()))
        R.obl(f"{name}: documented closed form", f, WHERE)
    lam = {"Exp": lambda: inv_(par("ell")), "Matern32": lambda: mul(N.sqrt(const(3)), inv_(par("ell"))), "Matern52": lambda: mul(N.sqrt(const(5)), inv_(par("ell")))}
    s2 = lambda: mul(par("sigma"), par("sigma"))
    x = lambda l: add(mul(l, l), mul(atom("om", 0), atom("om", 0)))
    half = lambda v: mul(v, inv_(mul(const(2), N.pi())))
    forms = {"Exp": lambda l: half(s2() * l * 2 * inv_(x(l))),
             "Matern32": lambda l: half(s2() * l * l * l * 4 * inv_(x(l) * x(l))),
             "Matern52": lambda l: half(s2() * l * l * l * l * l * Fraction(16, 3) * inv_(x(l) * x(l) * x(l)))}
    for s in catalog.leaf_specs():
        if s.name in forms:
            dens(s.name, lambda s=s: forms[s.name](lam[s.name]()), s)
    return R.finish("proof", {"explanation":
        "the density each kernel reports is compared, for any number of frequencies, with that of its own driven linear system and with "
        "the transform of its own covariance function; compositions also with the densities of their parts"}, 20)


par = catalog.par
inv_ = N.inv
