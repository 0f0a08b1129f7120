"""Model assembly: which solver, which noise variance, which mean reach the filter."""
import ast

from ..api import *
from .. import generic, interp as I
from ..projection import *

MEANS = '''
from tinygp.means import MeanBase


class Slope(MeanBase):
    """a user-written mean function object"""

    def __call__(self, X):
        return __MU__(X)
'''


def user_mean(w):
    m = I.Module("sa_means", "/verif/sa/checks/C10.py", w.it)
    m.env.vars["__name__"] = "sa_means"
    m.env.vars["__MU__"] = meanfn(w)
    m.tree, m.loaded = ast.parse(MEANS), True
    w.it.exec_block(m.tree.body, m.env)
    return m.env.vars["Slope"]


def inst_of(w, o, *names):
    return any(w.get(SOLVERS[n]) in o.cls.mro for n in names)


def shapes():
    """kernel shapes: (name, build, has an integrated part)"""
    g = lambda w, t="g": generic.kernel(w, t, 1, name=t)
    q = lambda w, t="q": generic.integrated(w, t, 1, name=t)
    add_ = lambda *ks: lambda w: _fold(w, "Add", ks)
    mul_ = lambda *ks: lambda w: _fold(w, "Mult", ks)
    scl = lambda k: lambda w: w.it.binop("Mult", asarr(pos("c")), k(w))
    wrap = lambda k: lambda w: wrapped(w, k(w))
    h = lambda w: g(w, "h")
    p = lambda w: q(w, "p")
    out = [("g", g, 0), ("g + h", add_(g, h), 0), ("g * h", mul_(g, h), 0), ("c g", scl(g), 0), ("wrapped g", wrap(g), 0),
           ("(g + h) * g", mul_(add_(g, h), g), 0), ("c (g * h) + g", add_(scl(mul_(g, h)), g), 0),
           ("q", q, 1), ("q + g", add_(q, g), 1), ("g + q", add_(g, q), 1), ("q * g", mul_(q, g), 1), ("g * q", mul_(g, q), 1),
           ("c q", scl(q), 1), ("wrapped q", wrap(q), 1), ("q + p", add_(q, p), 1),
           ("g + c q", add_(g, scl(q)), 1), ("c (g + q)", scl(add_(g, q)), 1), ("g + (h + q)", add_(g, add_(h, q)), 1),
           ("(g + q) + h", add_(add_(g, q), h), 1), ("g * (h + q)", mul_(g, add_(h, q)), 1), ("g + h * q", add_(g, mul_(h, q)), 1),
           ("wrapped (g + wrapped q)", wrap(add_(g, wrap(q))), 1), ("c (wrapped (h * q)) + g", add_(scl(wrap(mul_(h, q))), g), 1)]
    return out


def _fold(w, op, ks):
    r = ks[0](w)
    for k in ks[1:]:
        r = w.it.binop(op, r, k(w))
    return r


def wrapped(w, k):
    if "sa_wrap10" not in w.it.modules:
        m = I.Module("sa_wrap10", "/verif/sa/checks/C10.py", w.it)
        w.it.modules["sa_wrap10"] = m
        m.tree, m.loaded = ast.parse("from smolgp.kernels.base import Wrapper\nclass Plain(Wrapper):\n    pass\n"), True
        w.it.exec_block(m.tree.body, m.env)
    return w.call(w.it.modules["sa_wrap10"].env.vars["Plain"], name="W", kernel=k)


def selection(R):
    where = "smolgp.gp.GaussianProcess.__init__"
    for nm, build, has in shapes():
        def f(w, build=build, has=has):
            k = build(w)
            De = Exposures(w, 2)
            D = De if has else Data(w, 2)
            X = De.X if has else D.t
            g = w.call(GP, k, X, diag=D.r)
            sv = w.attr(g, "solver")
            kinds = ("IntegratedStateSpaceSolver", "ParallelIntegratedStateSpaceSolver") if has else \
                ("StateSpaceSolver", "ParallelStateSpaceSolver")
            if not inst_of(w, sv, *kinds):
                w.bad("solver", f"{sv.cls.name} is chosen; required an {'exposure-aware' if has else 'instantaneous'} one")
            if has:
                try:
                    w.call(GP, k, De.t, diag=D.r)
                except PyError:
                    pass
                else:
                    w.bad("exposures", "coordinates without exposure times are accepted for an exposure-integrated kernel")
        R.obl(f"default solver of [{nm}]", f, where)
    for sol in SOLVERS:
        def f(w, sol=sol):
            D = (Exposures if integ(sol) else Data)(w, 2)
            X = D.X if integ(sol) else D.t
            k = (generic.integrated if integ(sol) else generic.kernel)(w, "q", 1)
            cls = w.get(SOLVERS[sol])
            g = w.call(GP, k, X, diag=D.r, solver=cls)
            w.eqb("explicit solver class", w.attr(g, "solver").cls.name, cls.name)
            sv = w.call(cls, k, X, D.diag_noise())
            g = w.call(GP, k, X, diag=D.r, solver=sv)
            if w.attr(g, "solver") is not sv:
                w.bad("explicit solver object", "another solver is used")
        R.obl(f"explicit solver {sol}", f, where)
    def f(w):
        D = Data(w, 2)
        g = w.call(GP, generic.integrated(w, "q", 1), Exposures(w, 2).X, diag=D.r, solver=w.get(SOLVERS["ParallelIntegratedStateSpaceSolver"]))
        w.eqb("solver", w.attr(g, "solver").cls.name, "ParallelIntegratedStateSpaceSolver")
    R.obl("explicit parallel solver for an integrated kernel", f, where)


def noise_forms(w, D):
    """(name, keywords, variance of observation i)"""
    n = D.n
    sig = A.Arr((n,), fn=lambda i: atom("sg", A.idx_key(i), positive=True))
    val = A.Arr((n, n), fn=lambda i, j: atom("cov", *sorted([A.idx_key(i), A.idx_key(j)], key=str)))
    off = A.Arr((n, 1), fn=lambda i, j: atom("off", A.idx_key(i)))
    D_ = lambda k, **kw: w.call("tinygp.noise." + k, **kw)
    at_ = lambda a: (lambda i: at(a, i).get(()))
    return {
        "an array": ({"diag": D.r}, at_(D.r)),
        "a scalar": ({"diag": asarr(atom("s2", positive=True))}, lambda i: atom("s2", positive=True)),
        "a number": ({"diag": Fraction(1, 4)}, lambda i: const(Fraction(1, 4))),
        "an integer": ({"diag": 2}, lambda i: const(2)),
        "the square of errors": ({"diag": w.it.binop("Pow", sig, 2)}, lambda i: mul(at_(sig)(i), at_(sig)(i))),
        "nothing": ({}, lambda i: N.sqrt(atom("finfo.eps", positive=True))),
        "a Diagonal model": ({"noise": D_("Diagonal", diag=D.r)}, at_(D.r)),
        "a Dense model": ({"noise": D_("Dense", value=val)}, lambda i: at(val, (i, i)).get(())),
        "a Banded model": ({"noise": D_("Banded", diag=D.r, off_diags=off)}, at_(D.r)),
        "a Diagonal model over a scalar": ({"noise": D_("Diagonal", diag=D.r), "diag": asarr(atom("s2", positive=True))}, at_(D.r)),
    }


def noise(R, sol, n, forms):
    for nm in forms:
        for j in range(3 if n is None else n):
            def f(w, nm=nm, j=j):
                D = (Exposures if integ(sol) else Data)(w, n)
                X = D.X if integ(sol) else D.t
                k = (generic.integrated if integ(sol) else generic.kernel)(w, "g", 1)
                kw, want = noise_forms(w, D)[nm]
                if sol in ("StateSpaceSolver", "IntegratedStateSpaceSolver") and n is not None:
                    g = w.call(GP, k, X, **kw)
                else:
                    g = w.call(GP, k, X, solver=w.get(SOLVERS[sol]), **kw)
                sv = w.attr(g, "solver")
                if integ(sol) and n is not None:
                    D.read_literal(w, [M.AA(x) for x in w.attr(sv, "state_coords")])
                D.r = A.Arr((D.n,), fn=lambda i: want(i))
                out = w.parts("filter result", w.meth(sv, "Kalman", D.y, return_v_S=True), 6)
                if integ(sol):
                    from ..exposures import Model, innovation_relation
                    innovation_relation(w, D, Model("g", 2), out, out[4:], which=j)
                    return
                mp, Pp, v, S = [M.AA(x) for x in out[2:]]
                w.eqb("one innovation per observation", A.dim_eq(v.shape[0], D.n) and A.dim_eq(S.shape[0], D.n), True)
                i = j if n is not None else [0, A.gen_index(D.n, 3), dn(add(lift(D.n), const(-1)))][j]
                h = generic.H("g", 1, at(D.t, i).get(()))
                if not w.mis:
                    w.eq("innovation", at(v, i), minus(A.reshape(at(D.y, i), (1,)), mm(h, at(mp, i))))
                    w.eq("innovation variance", at(S, i), plus(mm(h, at(Pp, i), T(h)), A.reshape(arr0(want(i)), (1, 1))))
            R.obl(f"{sol}, {label(n)}: noise given as {nm}, {('first', 'interior', 'last')[j] if n is None else 'point ' + str(j)}",
                  f, "smolgp.gp.GaussianProcess.__init__", limit=3000)


def mean_forms(w):
    mu = meanfn(w)
    c = atom("mu0")
    fn = lambda D, X, i: mean_at(D, i, X)
    return {
        "nothing": (None, lambda D, X, i: const(0)),
        "a number": (Fraction(3, 2), lambda D, X, i: const(Fraction(3, 2))),
        "zero": (0, lambda D, X, i: const(0)),
        "a scalar array": (asarr(c), lambda D, X, i: c),
        "a function": (mu, fn),
        "Mean(function)": (w.call("tinygp.means.Mean", mu), fn),
        "Mean(constant)": (w.call("tinygp.means.Mean", asarr(c)), lambda D, X, i: c),
        "a user's mean object": (w.call(user_mean(w)), fn),
    }


def means(R, sol, n, forms):
    for nm in forms:
        def f(w, nm=nm):
            p = Process(w, sol, 1, n, mean="none")
            D = p.D
            m, want = mean_forms(w)[nm]
            g = w.call(GP, p.kernel, p.X, diag=D.r, solver=p.solver, **({} if nm == "nothing" else {"mean": m}))
            for what, call in (("log probability", "log_probability"), ("conditioning", "condition")):
                w.meth(g, call, D.y)
                r = M.AA(p.o["resid"][-1])
                p.lengths(f"residual given to the filter, {what}", D.n, r)
                for i in p.points() if not w.mis else ():
                    w.eq(f"residual given to the filter, {what}", at(r, i), arr0(add(at(D.y, i).get(()), neg(lift(want(D, p.X, i))))))
            prior = w.attr(g, "loc")
            p.lengths("prior mean", D.n, prior)
            for i in p.points() if not w.mis else ():
                w.eq("prior mean", at(M.AA(prior), i), arr0(lift(want(D, p.X, i))))
        R.obl(f"{sol}, {label(n)}: mean given as {nm}", f, "smolgp.gp.GaussianProcess.__init__", limit=3000)


def default_noise(R, sol, n, forms):
    """the jitter used when no noise is given does not depend on how the mean is given"""
    for nm in forms:
        def f(w, nm=nm):
            p = Process(w, sol, 1, n, mean="none")
            m, _ = mean_forms(w)[nm]
            g = w.call(GP, p.kernel, p.X, solver=w.get(SOLVERS[sol]), **({} if nm == "nothing" else {"mean": m}))
            for what, o in (("process", g), ("solver", w.attr(g, "solver"))):
                d = M.AA(w.meth(w.attr(o, "noise"), "diagonal"))
                p.lengths(f"default noise of the {what}", p.D.n, d)
                for i in p.points() if not w.mis else ():
                    w.eq(f"default noise of the {what}", at(d, i), arr0(N.sqrt(atom("finfo.eps", positive=True))))
        R.obl(f"{sol}, {label(n)}: default noise, mean given as {nm}", f, "smolgp.gp._default_diag", limit=3000)


NOISES = ("an array", "a scalar", "a number", "an integer", "the square of errors", "nothing", "a Diagonal model", "a Dense model",
          "a Banded model", "a Diagonal model over a scalar")
MEANF = ("nothing", "a number", "zero", "a scalar array", "a function", "Mean(function)", "Mean(constant)", "a user's mean object")


def run(R):
    selection(R)
    for sol in SOLVERS:
        noise(R, sol, None, NOISES)
        noise(R, sol, 2, NOISES if R.tier != "quick" else ("an array", "a scalar", "nothing"))
        noise(R, sol, 1, ("an array", "a number", "nothing"))
        means(R, sol, None, MEANF)
        means(R, sol, 1, ("a function", "a number"))
        default_noise(R, sol, None, MEANF)
        default_noise(R, sol, 1, ("nothing", "zero"))
    return R.finish("proof", {"explanation":
        "the constructor is followed for every kernel shape (nesting enumerated), noise form and mean form; the innovation variance and residual "
        "that the filter computes are compared with the variance and mean of the very observation"}, 100)
