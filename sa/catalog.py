"""The kernels the library documents, with their documented covariance functions."""
from fractions import Fraction

from . import arr as A
from . import num as N
from .api import pos, asarr, const, lift, add, mul, neg, Arr
from .num import exp, inv, ipow, sqrt, sincos, pi, Iv, atom

H = Fraction(1, 2)


def _a(x):
    return asarr(x)


def cosh(x):
    e = exp(x)
    return (e + inv(e)) * H


def sinh(x):
    e = exp(x)
    return (e - inv(e)) * H


class Spec:
    def __init__(self, name, cls, build, k, dim, base=None, stationary=True):
        self.name, self.cls, self.build, self.k, self.dim = name, cls, build, k, dim
        self.base = base
        self.stationary = stationary


def par(name, **kw):
    return pos(name, **kw)


def sho_q(regime):
    return {"underdamped": lambda: par("Q", lo=H), "overdamped": lambda: par("Q", lo=0, hi=H),
            "critical": lambda: const(H)}[regime]()


def sho_k(regime, pre=""):
    def k(dt):
        w, q, s = par(pre + "omega"), sho_q(regime), par(pre + "sigma")
        s2 = s * s
        if regime == "critical":
            return s2 * exp(-(w * dt)) * (w * dt + 1)
        e = exp(-(w * dt) * inv(q * 2))
        if regime == "underdamped":
            eta = sqrt(1 - inv(q * q * 4))
            sn, cs = sincos(eta * w * dt)
            return s2 * e * (cs + sn * inv(eta * q * 2))
        eta = sqrt(inv(q * q * 4) - 1)
        x = eta * w * dt
        return s2 * e * (cosh(x) + sinh(x) * inv(eta * q * 2))
    return k


def leaf_specs(thorough=False):
    out = []

    def ell():
        return par("ell")

    def sg():
        return par("sigma")

    out.append(Spec("Constant", "smolgp.kernels.base.Constant",
                    lambda w, c, **kw: w.call(c, sigma=_a(sg()), **kw), lambda dt: sg() * sg(), 1))
    for r in ("underdamped", "overdamped", "critical"):
        def b(w, c, r=r, **kw):
            return w.call(c, omega=_a(par("omega")), quality=_a(sho_q(r)), sigma=_a(sg()), **kw)
        out.append(Spec("SHO[" + r + "]", "smolgp.kernels.base.SHO", b, sho_k(r), 2))
    out.append(Spec("Exp", "smolgp.kernels.base.Exp",
                    lambda w, c, **kw: w.call(c, scale=_a(ell()), sigma=_a(sg()), **kw),
                    lambda dt: sg() * sg() * exp(-(dt * inv(ell()))), 1))

    def m32(dt):
        f = sqrt(const(3)) * inv(ell())
        return sg() * sg() * (f * dt + 1) * exp(-(f * dt))

    def m52(dt):
        f = sqrt(const(5)) * inv(ell())
        return sg() * sg() * (1 + f * dt + f * f * dt * dt * Fraction(1, 3)) * exp(-(f * dt))

    def m72(dt):
        f = sqrt(const(7)) * inv(ell())
        x = f * dt
        return sg() * sg() * (1 + x + x * x * Fraction(2, 5) + x * x * x * Fraction(1, 15)) * exp(-x)
    for nm, kf, d in (("Matern32", m32, 2), ("Matern52", m52, 3)):
        out.append(Spec(nm, "smolgp.kernels.base." + nm,
                        lambda w, c, **kw: w.call(c, scale=_a(ell()), sigma=_a(sg()), **kw), kf, d))
    out.append(Spec("Cosine", "smolgp.kernels.base.Cosine",
                    lambda w, c, **kw: w.call(c, scale=_a(ell()), sigma=_a(sg()), **kw),
                    lambda dt: sg() * sg() * N.cos(pi() * 2 * dt * inv(ell())), 2))
    for nu, kf, d in ((Fraction(1, 2), lambda dt: sg() * sg() * exp(-(dt * inv(ell()))), 1),
                      (Fraction(3, 2), m32, 2), (Fraction(5, 2), m52, 3), (Fraction(7, 2), m72, 4)):
        out.append(Spec(f"Matern[nu={nu}]", "smolgp.kernels.base.Matern",
                        lambda w, c, nu=nu, **kw: w.call(c, nu=nu, scale=_a(ell()), sigma=_a(sg()), **kw), kf, d))
    for J in ((1, 3, 4) if not thorough else (1, 2, 3, 4, 5, 6)):
        out.append(Spec(f"ExpSineSquared[order={J}]", "smolgp.kernels.base.ExpSineSquared",
                        lambda w, c, J=J, **kw: w.call(c, period=_a(par("period")), gamma=_a(par("gamma")),
                                                       sigma=_a(sg()), order=J, **kw),
                        (J, ess_k), 2 * J))
    return out


def bessel(j, x, T):
    """sum_{k<T} (x/2)^(2k+j) / (k! (k+j)!)"""
    import math
    t = const(0)
    h = x * H
    for k in range(T):
        t = t + ipow(h, 2 * k + j) * Fraction(1, math.factorial(k) * math.factorial(k + j))
    return t


def ess_k(J, T):
    def k(dt):
        g, per, s = par("gamma"), par("period"), par("sigma")
        arg = inv(const(2) * inv(g))
        tot = const(0)
        for j in range(J):
            q2 = bessel(j, arg, T) * inv(exp(arg)) * (1 if j == 0 else 2)
            tot = tot + q2 * N.cos(pi() * 2 * inv(per) * dt * j)
        return s * s * tot
    return k


def integrated_specs():
    out = []

    def ell():
        return par("ell")

    def sg():
        return par("sigma")
    for r in ("underdamped", "overdamped", "critical"):
        def b(w, c, r=r, **kw):
            return w.call(c, omega=_a(par("omega")), quality=_a(sho_q(r)), sigma=_a(sg()), **kw)
        out.append(Spec("IntegratedSHO[" + r + "]", "smolgp.kernels.integrated.IntegratedSHO", b, sho_k(r), 2,
                        base="smolgp.kernels.base.SHO"))
    for nm, d in (("Exp", 1), ("Matern32", 2), ("Matern52", 3), ("Cosine", 2)):
        out.append(Spec("Integrated" + nm, "smolgp.kernels.integrated.Integrated" + nm,
                        lambda w, c, **kw: w.call(c, scale=_a(ell()), sigma=_a(sg()), **kw), None, d,
                        base="smolgp.kernels.base." + nm))
    return out
