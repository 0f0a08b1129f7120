"""Cost: no array, map or loop over pairs of positions (data, states or requests), and no Python loop over them."""
import contextlib
import types

import numpy as np

from ..api import *
from .. import generic, effects, num as N
from ..projection import *
from ..prediction import Requests
from .C18 import conventions, requests, read
from .C10 import shapes, noise_forms, NOISES
from .C20 import touch


SIZES = []


def invariant(x, level, depth=0):
    """computed from values of outside the enclosing map or loop only: formed once, not once per position"""
    if depth > 12:
        return False
    if x is None or isinstance(x, (int, float, str, bool, slice, type(...))):
        return True
    if isinstance(x, (tuple, list)):
        return all(invariant(e, level, depth + 1) for e in x)
    if isinstance(x, A.Arr):
        return len(x.level or ()) < len(level) or (invariant(x.fn, level, depth + 1) if x.data is None else
                                                    all(invariant(e, level, depth + 1) for e in x.data.flat))
    if isinstance(x, types.FunctionType):
        return all(invariant(c.cell_contents, level, depth + 1) for c in x.__closure__ or ()) \
            and all(invariant(d, level, depth + 1) for d in x.__defaults__ or ())
    if isinstance(x, A._Read):
        return False
    if isinstance(x, (types.BuiltinFunctionType, np.ufunc)) or not hasattr(x, "__dict__") and callable(x):
        return True
    if isinstance(x, N.S):      # a number, or a size
        return x.aff is not None and all(k is None or any(k in (A.lift(e).aff or ()) for e in SIZES) for k in x.aff)
    if isinstance(x, A.SliceMap):
        return all(invariant(v, level, depth + 1) for v in vars(x).values())
    return False


@contextlib.contextmanager
def watching(w):
    effects.load_all(w.it)

    def formed(a, extents):
        SIZES.extend(e for e in extents if e not in SIZES)
        if a is not None and a.fn is not None and A.Extents.level and sum(not isinstance(d, int) for d in a.shape) < 2 \
                and invariant(a.fn, A.Extents.level):
            return
        what = "a loop over" if a is None else "an array of"
        shape = "" if a is None else f" of shape {pshape(a.shape)}"
        raise A.PyError("Cost", f"{what} {' x '.join(show(A.lift(e)) for e in extents)} entries{shape}{w.it.where()}")
    X = A.Extents
    X.level, X.formed = (), formed
    try:
        yield
    finally:
        X.level = None


def calls(R, sol, comps, mean):
    for nm, call in conventions(sol).items():
        if nm == "predict at plain times" and mean == "function":
            continue
        def f(w, call=call):
            with watching(w):
                p = Process(w, sol, 1, None, comps=comps, mean=mean)
                kw = {"mean": meanfn(w)} if mean == "function" else {}
                p.gp = w.call(GP, p.kernel, p.X, diag=p.D.r, solver=p.solver, **kw)
                call(p, requests(w, p, sol))
        R.obl(f"{sol}, {comps} component(s), mean {mean}: {nm}", f, "smolgp.gp", limit=3000)


def solvers(R, sol):
    for kw in ({}, {"return_v_S": True}):
        def f(w, kw=kw):
            with watching(w):
                it = integ(sol)
                D = (Exposures if it else Data)(w, None)
                k = (generic.integrated if it else generic.kernel)(w, "g", 1)
                sv = w.call(SOLVERS[sol], k, D.X if it else D.t, D.diag_noise())
                w.meth(sv, "Kalman", D.y, **kw)
                w.meth(sv, "condition", D.y, **kw)
        R.obl(f"{sol} on its own{', innovations' if kw else ''}", f, SOLVERS[sol], limit=3000)
    for wh in ("before", "between", "after"):
        def f(w, wh=wh):
            with watching(w):
                it = integ(sol)
                D = (Exposures if it else Data)(w, None)
                k = (generic.integrated if it else generic.kernel)(w, "g", 1)
                ts, K = (A.Arr((D.K,), fn=lambda i: D.time(i)), D.K) if it else (D.t, D.n)
                kk = {"before": lambda: 0, "between": lambda: A.gen_index(K, 1), "after": lambda: dn(K)}[wh]()
                Q = Requests(w, D, ts, tuple_coords=it)
                _, j = Q.positions()[1]
                Q.place[A.idx_key(j)] = (wh, kk)
                if it:
                    Q.neighbours(j)
                cls = generic.stub(w, sol, SOLVERS[sol], 2 if it else 1, K, D.n)[0]
                sv = w.call(cls, k, D.X if it else D.t, D.diag_noise())
                for x in w.meth(sv, "predict", Q.X, w.meth(sv, "condition", D.y)):
                    x = at(M.AA(x), j)
                    x.get((0,) * x.ndim)
        R.obl(f"{sol} on its own, request {wh}", f, SOLVERS[sol] + ".predict", limit=3000)


def models(R):
    for nm, build, has in shapes():
        def f(w, build=build, has=has):
            with watching(w):
                E = Exposures(w, None) if has else Data(w, None)
                p = w.call(GP, build(w), E.X if has else E.t, diag=E.r)
                touch(w.attr(p, "loc"))
        R.obl(f"process of [{nm}]", f, GP, limit=3000)
    for sol in SOLVERS:
        for nm in NOISES:
            if "Dense" in nm:       # N x N by request
                continue
            def f(w, nm=nm, sol=sol):
                p = Process(w, sol, 1, None, mean="none")
                kw, _ = noise_forms(w, p.D)[nm]
                with watching(w):
                    g = w.call(GP, p.kernel, p.X, solver=p.solver, **kw)
                    read(w, "log probability", w.meth(g, "log_probability", p.D.y), ())
            R.obl(f"{sol}: process with noise given as {nm}", f, GP, limit=3000)


def run(R):
    for sol in SOLVERS:
        calls(R, sol, 1, "function")
        calls(R, sol, 2, "none")
        solvers(R, sol)
    models(R)
    return R.finish("proof", {"explanation":
        "symbolic extents: the numbers of data, states and requests are symbols; every array formed on every path of every documented call, "
        "including inside the body of every map, scan and associative scan, is required to have at most one such extent, counting those of "
        "the maps and loops around it; a Python loop over a symbolic extent is rejected"}, 100)
