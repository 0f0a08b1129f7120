"""No side effects: every documented call leaves modules, classes, closures and its arguments as they were."""
from ..api import *
from .. import catalog, compose, generic, effects, interp as I
from ..effects import pure, given
from ..projection import *
from ..prediction import Requests
from .C18 import conventions, requests, corners
from .C10 import shapes, noise_forms, NOISES


def roots(p, Q=None):
    return {"the kernel": p.kernel, "the coordinates": p.X, "the data": p.D.y, "the process": p.gp, "the solver": p.solver,
            "the requested coordinates": Q and Q.X}


def touch(x, depth=0):
    """evaluate a few entries of everything in a result (arrays are lazy)"""
    if isinstance(x, A.Arr):
        try:
            for i in corners(x.shape):
                x.get(i)
        except SingularMatrix:
            pass
    elif isinstance(x, (tuple, list)):
        for e in x:
            touch(e, depth)
    elif isinstance(x, dict):
        touch(list(x.values()), depth)
    elif isinstance(x, I.Inst) and depth < 3 and "solver" not in x.fields:
        touch(list(x.fields.values()), depth + 1)


def same(w, what, a, b):
    """two results of the same call"""
    if isinstance(a, A.Arr) and isinstance(b, A.Arr):
        for i in corners(a.shape):
            x, y = A.num(a.get(i)), A.num(b.get(i))
            if x.key != y.key:
                w.bad(what, f"the second call returns {show(y)[:100]}, the first {show(x)[:100]}")
                return
    elif isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        w.eqb(what, len(b), len(a))
        for x, y in zip(a, b):
            same(w, what, x, y)
    elif isinstance(a, dict) and isinstance(b, dict):
        w.eqb(what, list(b), list(a))
        same(w, what, list(a.values()), list(b.values()))
    elif isinstance(a, I.Inst) and isinstance(b, I.Inst):
        w.eqb(what, b.cls.name, a.cls.name)
        same(w, what, a.fields, b.fields)
    elif isinstance(a, (str, int, float, Fraction, type(None))):
        w.eqb(what, b, a)


def inputs(p):
    """the caller's own arrays, mutable"""
    D = p.D
    D.y = given("the data", D.y)
    D.r = given("the noise variances", D.r)
    if isinstance(p.X, tuple):
        p.X = tuple(given(nm, x) for nm, x in zip(("the times", "the exposure times", "the instruments"), p.X))
    else:
        p.X = given("the times", p.X)


def process(w, sol, comps, mean):
    p = Process(w, sol, 1, None, comps=comps, mean=mean)
    inputs(p)
    kw = {"mean": meanfn(w)} if mean == "function" else {}
    p.gp = w.call(GP, p.kernel, p.X, diag=p.D.r, solver=p.solver, **kw)
    return p


def calls(R, sol, comps, mean):
    for nm, call in conventions(sol).items():
        if nm == "predict at plain times" and mean == "function":
            continue
        def f(w, call=call):
            p = process(w, sol, comps, mean)
            Q = requests(w, p, sol)
            Q.X = tuple(given("the requested coordinates", x) for x in Q.X) if isinstance(Q.X, tuple) else given("the requested coordinates", Q.X)
            pure(w, roots(p, Q), lambda: call(p, Q))
        R.obl(f"{sol}, {comps} component(s), mean {mean}: {nm}", f, "smolgp.gp", limit=3000)


def components(R, sol):
    """names handed over in a list, and the results of all components"""
    def f(w):
        p = process(w, sol, 2, "none")
        Q = requests(w, p, sol)
        names = [w.attr(x, "name") for x in w.call("smolgp.kernels.base.extract_leaf_kernels", w.attr(p.gp, "kernel"))][::-1]
        r = dict(roots(p, Q), **{"the list of names": names})
        g = pure(w, r, lambda: w.attr(w.meth(p.gp, "condition", p.D.y), "gp"))
        state = pure(w, r, lambda: w.meth(g, "predict", Q.X, return_full_state=True))
        r.update({"the conditioned process": g, "the predicted states": state})

        def twice(what, call):
            def seen():
                x = call()
                touch(x)
                return x
            a = pure(w, r, seen)
            w.c.hooks["set_reversed"] = True
            same(w, what, a, call())
            w.c.hooks["set_reversed"] = False
        for var in (False, True):
            twice("mean of listed components", lambda: w.meth(g, "get_component_mean", names, return_var=var))
            twice("listed components of predicted states", lambda: w.meth(state, "get_component", names, return_var=var))
            twice("all component means", lambda: w.meth(g, "get_all_component_means", return_var=var))
            twice("all components of predicted states", lambda: w.meth(state, "get_all_components", return_var=var))
    R.obl(f"{sol}: components by a list of names", f, "smolgp.gp", limit=3000)


def solvers(R, sol):
    for d in (1, 2):
        def f(w, d=d):
            D = (Exposures if integ(sol) else Data)(w, None)
            X = tuple(given(n, x) for n, x in zip(("the times", "the exposure times", "the instruments"), D.X)) if integ(sol) else given("the times", D.t)
            y = given("the data", D.y)
            k = (generic.integrated if integ(sol) else generic.kernel)(w, "g", d)
            noise = D.diag_noise()
            r = {"the kernel": k, "the coordinates": X, "the data": y, "the noise": noise}
            sv = pure(w, r, lambda: w.call(SOLVERS[sol], k, X, noise))
            r["the solver"] = sv
            for kw in ({}, {"return_v_S": True}, {"return_v_S": False}):
                pure(w, r, lambda: w.meth(sv, "Kalman", y, **kw))
                c = pure(w, r, lambda: w.meth(sv, "condition", y, **kw))
                ts = A.Arr((D.K,), fn=lambda i: D.time(i)) if integ(sol) else D.t
                Q = Requests(w, D, ts, tuple_coords=integ(sol))
                for _, j in Q.positions():
                    Q.place[A.idx_key(j)] = ("after", D.K if integ(sol) else D.n)
                Xt = tuple(given("the requested coordinates", x) for x in Q.X) if integ(sol) else given("the requested coordinates", Q.X)
                pure(w, dict(r, **{"the conditioned states": c}), lambda: w.meth(sv, "predict", Xt, c))
        R.obl(f"{sol} on its own, order {d}", f, SOLVERS[sol], limit=3000)


def kernels(R):
    cases = [(s.name, (lambda s: lambda w: s.build(w, w.get(s.cls)))(s), s.cls, False) for s in catalog.leaf_specs(R.tier == "thorough")]
    cases += [(s.name, (lambda s: lambda w: s.build(w, w.get(s.cls)))(s), s.cls, True) for s in catalog.integrated_specs()]
    cases += [(n, b, c, False) for n, b, c in compose.cases(R.tier)]
    x1, x2 = (lambda: arr0(atom("x1"))), (lambda: arr0(add(atom("x1"), pos("lagv"))))
    for name, build, cls, it in cases:
        def f(w, build=build, it=it):
            k0 = pure(w, {}, lambda: build(w))
            k = build(w)
            same(w, "building the kernel twice", k0, k)
            z = lambda x: (x, arr0(pos("texp")), arr0(const(0))) if it else x
            for m, a in (("design_matrix", ()), ("stationary_covariance", ()), ("noise", ()), ("noise_effect_matrix", ()),
                         ("observation_matrix", (z(x1()),)), ("observation_model", (z(x1()),)), ("transition_matrix", (x1(), x2())),
                         ("process_noise", (x1(), x2())), ("reset_matrix", (0,)), ("evaluate", (z(x1()), z(x2()))),
                         ("evaluate_diag", (z(x1()),)), ("__mul__", (asarr(pos("c")),)), ("__add__", (generic.integrated(w, "q", 1) if it else generic.kernel(w, "g", 1),)),
                         ("psd", (A.Arr((2,), fn=lambda i: atom("om", i)),))):
                def call():
                    try:
                        r = w.meth(k, m, *a)
                    except PyError as e:        # not every kernel has every method
                        return e.kind if hasattr(e, "kind") else str(e)
                    touch(r)
                    return r
                r = {"the kernel": k, "the arguments": a}
                first = pure(w, r, call)
                same(w, f"{m} called twice", first, call())
        R.obl(f"{name}: all methods", f, cls, limit=3000)


def models(R):
    for nm, build, has in shapes():
        def f(w, build=build, has=has):
            E = Exposures(w, None) if has else Data(w, None)
            X = E.X if has else E.t
            k = build(w)
            r = {"the kernel": k, "the coordinates": X, "the noise variances": E.r}
            named = lambda: [w.attr(x, "name") for x in w.call("smolgp.kernels.base.extract_leaf_kernels",
                                                               w.call("smolgp.gp.assign_unique_kernel_names", k))]
            a = pure(w, r, named)
            w.eqb("names assigned twice", named(), a)
            w.c.hooks["set_reversed"] = True
            w.eqb("names when sets are iterated in another order", named(), a)
            w.c.hooks["set_reversed"] = False
            p1 = pure(w, r, lambda: w.call(GP, k, X, diag=E.r))
            p2 = w.call(GP, k, X, diag=E.r)
            leaves = lambda p: [w.attr(x, "name") for x in w.call("smolgp.kernels.base.extract_leaf_kernels", w.attr(p, "kernel"))]
            w.eqb("names of the components of two processes built alike", leaves(p2), leaves(p1))
        R.obl(f"process of [{nm}]", f, GP, limit=3000)
    for dup in (["A", "A"], ["A", "A", "A"], ["B", "A", "B"], ["A", "A_1", "A"], ["A_0", "A", "A"]):
        def f(w, dup=dup):
            mk = lambda: _fold([generic.kernel(w, f"g{i}", 1, name=n) for i, n in enumerate(dup)], lambda a, b: w.it.binop("Add", a, b))
            k = mk()
            named = lambda k: [w.attr(x, "name") for x in w.call("smolgp.kernels.base.extract_leaf_kernels",
                                                                 w.call("smolgp.gp.assign_unique_kernel_names", k))]
            a = pure(w, {"the kernel": k}, lambda: named(k))
            w.eqb("names assigned twice", named(k), a)
            w.eqb("names of an equal kernel", named(mk()), a)
            w.c.hooks["set_reversed"] = True
            w.eqb("names when sets are iterated in another order", named(k), a)
        R.obl(f"unique names for {dup}", f, "smolgp.gp.assign_unique_kernel_names", limit=3000)
    for sol in SOLVERS:
        for nm in NOISES:
            def f(w, nm=nm, sol=sol):
                p = Process(w, sol, 1, None, mean="none")
                inputs(p)
                kw, _ = noise_forms(w, p.D)[nm]
                pure(w, {"the kernel": p.kernel, "the coordinates": p.X, "the noise": kw}, lambda: w.call(GP, p.kernel, p.X, **kw))
            R.obl(f"{sol}: process with noise given as {nm}", f, GP, limit=3000)


def _fold(ks, f):
    r = ks[0]
    for k in ks[1:]:
        r = f(r, k)
    return r


def source(R):
    n = 0
    for path in effects.modules(os.path.join(REPO, "src", "smolgp")):
        rel = os.path.relpath(path, REPO)
        fns, found = effects.syntax(path)
        n += len(fns)
        for q, line, what in found:
            R.check(f"{rel}: {q}", False, f"{rel}:{line}", what)
        R.check(f"{rel}: {len(fns)} functions use no hidden state", not found, rel, "")
    R.extra["functions_by_syntax_rule"] = n


def run(R):
    for sol in SOLVERS:
        calls(R, sol, 1, "function")
        calls(R, sol, 2, "none")
        solvers(R, sol)
        components(R, sol)
    kernels(R)
    models(R)
    source(R)
    return R.finish("proof", {"explanation":
        "for every documented call, followed through the source for any number of data: fingerprints of all module, class, closure and "
        "argument state before and after are equal, nothing is written into arrays of the caller, and repeating the call repeats the "
        "result; no function uses module-level assignments, clocks, random state or the environment"}, 200)
