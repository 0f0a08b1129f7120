"""Binding times: while a model is compiled or differentiated, no Python-level decision depends on the value of an array."""
import contextlib

from ..api import *
from .. import catalog, compose, generic, effects, interp as I
from ..projection import *
from ..prediction import Requests
from .C18 import conventions, requests, corners, read
from .C10 import shapes, noise_forms, NOISES
from .C20 import touch


@contextlib.contextmanager
def tracing(w, on):
    """on: every array is a tracer (the caller compiles); False: only inside what the program itself compiles or scans"""
    it = w.it
    effects.load_all(it)
    def lost(what):
        w.bad("", f"no derivative passes through {what}{it.where()}")
    w.c.hooks.update(concrete=it.concrete, derivative=lost, reduce_bool=lambda a, conj: conj)
    it.tracing = on
    try:
        yield
    finally:
        it.tracing = None
        w.c.hooks.pop("concrete")
        w.c.hooks.pop("derivative")
        w.c.hooks.pop("reduce_bool")


def solvers(R, sol, on):
    for d in (1, 2):
        def f(w, d=d):
            with tracing(w, on):
                D = (Exposures if integ(sol) else Data)(w, None)
                k = (generic.integrated if integ(sol) else generic.kernel)(w, "g", d)
                sv = w.call(SOLVERS[sol], k, D.X if integ(sol) else D.t, D.diag_noise())
                for kw in ({}, {"return_v_S": True}):
                    w.meth(sv, "Kalman", D.y, **kw)
                    c = w.meth(sv, "condition", D.y, **kw)
        R.obl(f"{sol} on its own, order {d}, {'traced' if on else 'eager'}", f, SOLVERS[sol], limit=3000)


def predictions(R, sol, on):
    it = integ(sol)
    for wh in ("before", "between", "after"):
        def f(w, wh=wh):
            with tracing(w, on):
                D = (Exposures if it else Data)(w, None)
                k = (generic.integrated if it else generic.kernel)(w, "g", 1)
                ts, K = (A.Arr((D.K,), fn=lambda i: D.time(i)), D.K) if it else (D.t, D.n)
                kk = {"before": lambda: 0, "between": lambda: A.gen_index(K, 1), "after": lambda: dn(K)}[wh]()
                Q = Requests(w, D, ts, tuple_coords=it)
                _, j = Q.positions()[1]
                Q.place[A.idx_key(j)] = (wh, kk)
                if it:
                    Q.neighbours(j)
                cls = generic.stub(w, sol, SOLVERS[sol], 2 if it else 1, K, D.n)[0]
                sv = w.call(cls, k, D.X if it else D.t, D.diag_noise())
                for x in w.meth(sv, "predict", Q.X, w.meth(sv, "condition", D.y)):
                    x = at(M.AA(x), j)
                    x.get((0,) * x.ndim)
        R.obl(f"{sol} on its own, request {wh}, {'traced' if on else 'eager'}", f, SOLVERS[sol] + ".predict", limit=3000)


def python(x):
    """the number behind an array: a Python float"""
    return A.num(x.get(())) if isinstance(x, A.Arr) and x.ndim == 0 else x


class Numbers:
    """builds kernels with hyperparameters given as Python numbers"""

    def __init__(self, w):
        self.w = w

    def call(self, f, *a, **k):
        return self.w.call(f, *[python(x) for x in a], **{n: python(x) for n, x in k.items()})

    def __getattr__(self, n):
        return getattr(self.w, n)


def calls(R, sol, comps, mean, on):
    for nm, call in conventions(sol).items():
        if nm == "predict at plain times" and mean == "function":
            continue
        def f(w, call=call):
            with tracing(w, on):
                p = Process(w, sol, 1, None, comps=comps, mean=mean)
                kw = {"mean": meanfn(w)} if mean == "function" else {}
                p.gp = w.call(GP, p.kernel, p.X, diag=p.D.r, solver=p.solver, **kw)
                call(p, requests(w, p, sol))
        R.obl(f"{sol}, {comps} component(s), mean {mean}, {'traced' if on else 'eager'}: {nm}", f, "smolgp.gp", limit=3000)


def methods(w, k, it, wide=True):
    z = lambda x: (x, arr0(pos("texp")), asarr(const(0))) if it else x
    x1, x2 = arr0(atom("x1")), arr0(add(atom("x1"), pos("lagv")))
    out = {}
    for m, a in (("design_matrix", ()), ("stationary_covariance", ()), ("noise", ()), ("noise_effect_matrix", ()),
                 ("observation_matrix", (z(x1),)), ("observation_model", (z(x1),)), ("transition_matrix", (x1, x2)),
                 ("process_noise", (x1, x2)), ("reset_matrix", (asarr(const(0)),)), ("evaluate", (z(x1), z(x2))),
                 ("evaluate_diag", (z(x1),)), ("coord_to_sortable", (z(x1),)),
                 ("psd", (A.Arr((2,), fn=lambda i: atom("om", i)),))):
        if not w.it.hasattr(k, m):
            continue
        if m == "evaluate" and it:          # not provided by integrated kernels
            continue
        r = w.meth(k, m, *a)
        touch(r)
        out[m] = r
    w.attr(k, "dimension")
    return out


def kernels(R):
    cases = [(s.name, (lambda s: lambda w: s.build(w, w.get(s.cls)))(s), s.cls, False) for s in catalog.leaf_specs(R.tier == "thorough")]
    cases += [(s.name, (lambda s: lambda w: s.build(w, w.get(s.cls)))(s), s.cls, True) for s in catalog.integrated_specs()]
    cases += [(n, b, c, False) for n, b, c in compose.cases(R.tier)]
    for name, build, cls, it in cases:
        R.obl(f"{name}: built while compiling", (lambda build, it: lambda w: traced(w, build, it))(build, it), cls, limit=3000)
        R.obl(f"{name}: handed to a compiled function", (lambda build, it: lambda w: handed(w, build, it))(build, it), cls, limit=3000)
        R.obl(f"{name}: of Python numbers", (lambda build, it: lambda w: numbers(w, build, it))(build, it), cls, limit=3000)


def traced(w, build, it):
    with tracing(w, True):
        methods(w, build(w), it)


def handed(w, build, it):
    with tracing(w, False):
        k = build(w)
        w.it.tracing = True
        methods(w, I.tracers(k, {}, w.it), it)


def numbers(w, build, it):
    with tracing(w, False):
        k = build(Numbers(w))
        methods(w, k, it)
        w.it.tracing = True
        methods(w, I.tracers(k, {}, w.it), it)


def models(R):
    for nm, build, has in shapes():
        for on in (True, False):
            def f(w, build=build, has=has, on=on):
                E = Exposures(w, None) if has else Data(w, None)
                with tracing(w, on):
                    p = w.call(GP, build(w), E.X if has else E.t, diag=E.r)
                    touch(w.attr(p, "loc"))
            R.obl(f"process of [{nm}], {'traced' if on else 'eager'}", f, GP, limit=3000)
    for sol in SOLVERS:
        for nm in NOISES:
            def f(w, nm=nm, sol=sol):
                p = Process(w, sol, 1, None, mean="none")
                kw, _ = noise_forms(w, p.D)[nm]
                with tracing(w, True):
                    g = w.call(GP, p.kernel, p.X, solver=p.solver, **kw)
                    read(w, "log probability", w.meth(g, "log_probability", p.D.y), (), values=False)
            R.obl(f"{sol}: process with noise given as {nm}", f, GP, limit=3000)


def run(R):
    for sol in SOLVERS:
        calls(R, sol, 1, "function", True)
        calls(R, sol, 2, "none", True)
        calls(R, sol, 1, "none", False)
        solvers(R, sol, True)
        solvers(R, sol, False)
        predictions(R, sol, True)
        predictions(R, sol, False)
    kernels(R)
    models(R)
    return R.finish("proof", {"explanation":
        "binding times: every array value (hyperparameters, coordinates, data, noise, and whatever is computed from them) is a tracer; the "
        "interpreter reports any branch, number conversion, Python index, array size, mask selection, numpy call or hash that needs its "
        "value, and any operation no derivative passes through, on every path of every documented call and kernel method"}, 200)
