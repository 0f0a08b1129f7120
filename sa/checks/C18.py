"""Documented ways of calling return results; documented misuse raises."""
import ast

from ..api import *
from .. import catalog, generic, interp as I
from ..projection import *
from ..prediction import Requests
from .C10 import noise_forms, mean_forms, NOISES, MEANF

WHERE = "smolgp.gp.GaussianProcess"


def corners(shape):
    """a few entries of an array, symbolic extents included"""
    import itertools
    ax = []
    for d in shape:
        if isinstance(d, int):
            ax.append(sorted({0, d - 1}) if d else [])
        else:
            ax.append([0, A.gen_index(d, 3), dn(add(d, const(-1)))])
    return list(itertools.product(*ax))[:12]


def read(w, what, x, shape, values=True):
    a = M.AA(x)
    if not same_shape(a.shape, shape):
        w.bad(f"{what}: shape", f"got {pshape(a.shape)}, required {pshape(shape)}")
    elif values:
        for i in corners(a.shape):
            a.get(i)


def two(w, what, x, s1, s2=None):
    a, b = w.parts(what, x, 2)
    read(w, what + ", first", a, s1)
    read(w, what + ", second", b, s1 if s2 is None else s2)


def conventions(sol):
    """name -> f(process, requests): the documented ways of using a process"""
    y = lambda p: p.D.y
    n = lambda p: p.D.n
    cond = lambda p, *a, **k: p.w.meth(p.gp, "condition", y(p), *a, **k)
    gp = lambda p, *a, **k: p.w.attr(cond(p, *a, **k), "gp")
    name = lambda p: p.w.attr(p.w.call("smolgp.kernels.base.extract_leaf_kernels", p.w.attr(p.gp, "kernel"))[0], "name")
    leaf = lambda p: p.w.call("smolgp.kernels.base.extract_leaf_kernels", p.w.attr(p.gp, "kernel"))[0]
    own = lambda p: I.Builtin("own", lambda X: generic.H("own", p.dim, X))

    def cg(p, what, r, size):
        w = p.w
        read(w, what + ": log probability", w.attr(r, "log_probability"), ())
        l, g = w.parts(what, r, 2)
        read(w, what + ": mean", w.attr(g, "loc"), (size,))
        read(w, what + ": variance", w.attr(g, "variance"), (size,))

    def full(p, what, s, Q):
        w = p.w
        read(w, what + ": mean", w.attr(s, "mean"), (Q.m, p.dim))
        read(w, what + ": covariance", w.attr(s, "cov"), (Q.m, p.dim, p.dim))
        read(w, what + ": projected mean", w.attr(s, "loc"), (Q.m,))
        read(w, what + ": projected variance", w.attr(s, "variance"), (Q.m,))
        read(w, what + ": component", w.meth(s, "get_component", name(p)), (Q.m,))
        read(w, what + ": component in a list", w.meth(s, "get_component", [name(p)]), (Q.m,))
        two(w, what + ": component with variance", w.meth(s, "get_component", name(p), return_var=True), (Q.m,))
        for k, v in w.meth(s, "get_all_components").items():
            read(w, what + ": components", v, (Q.m,))
        for k, v in w.meth(s, "get_all_components", return_var=True).items():
            two(w, what + ": components with variance", v, (Q.m,))
    out = {
        "prior": lambda p, Q: (read(p.w, "prior mean", p.w.attr(p.gp, "loc"), (n(p),)), p.w.attr(p.gp, "variance")),
        "log probability": lambda p, Q: read(p.w, "log probability", p.w.meth(p.gp, "log_probability", y(p)), ()),
        "condition": lambda p, Q: cg(p, "condition", cond(p), n(p)),
        "condition without the mean": lambda p, Q: cg(p, "condition", cond(p, include_mean=False), n(p)),
        "condition for a component": lambda p, Q: cg(p, "condition", cond(p, kernel=leaf(p)), n(p)),
        "condition at test coordinates": lambda p, Q: cg(p, "condition", cond(p, Q.X), Q.m),
        "condition at test coordinates by keyword": lambda p, Q: cg(p, "condition", cond(p, X_test=Q.X, include_mean=False, kernel=leaf(p)), Q.m),
        "condition at the data's own coordinates": lambda p, Q: cg(p, "condition", cond(p, p.X), n(p)),
        "condition again": lambda p, Q: cg(p, "condition again", p.w.meth(gp(p), "condition", y(p)), n(p)),
        "condition again at test coordinates": lambda p, Q: cg(p, "condition again", p.w.meth(gp(p), "condition", y(p), Q.X), Q.m),
        "condition again after test coordinates": lambda p, Q: cg(p, "condition again", p.w.meth(gp(p, Q.X), "condition", y(p)), n(p)),
        "condition twice at test coordinates": lambda p, Q: cg(p, "condition again", p.w.meth(gp(p, Q.X), "condition", y(p), Q.X), Q.m),
        "component mean after test coordinates": lambda p, Q: read(p.w, "component", p.w.meth(gp(p, Q.X), "get_component_mean", name(p)), (n(p),)),
        "log probability of the conditioned process": lambda p, Q: read(p.w, "log probability", p.w.meth(gp(p), "log_probability", y(p)), ()),
        "predict at the data": lambda p, Q: read(p.w, "prediction", p.w.meth(gp(p), "predict"), (n(p),)),
        "predict at the data with variance": lambda p, Q: two(p.w, "prediction", p.w.meth(gp(p), "predict", return_var=True), (n(p),)),
        "predict at the data, full state": lambda p, Q: two(p.w, "prediction", p.w.meth(gp(p), "predict", return_full_state=True, return_var=True), (p.K, p.dim), (p.K, p.dim, p.dim)),
        "predict at the data, component by name": lambda p, Q: two(p.w, "prediction", p.w.meth(gp(p), "predict", kernel=name(p), return_var=True), (n(p),)),
        "predict at the data, component by kernel": lambda p, Q: read(p.w, "prediction", p.w.meth(gp(p), "predict", kernel=leaf(p)), (n(p),)),
        "predict": lambda p, Q: read(p.w, "prediction", p.w.meth(gp(p), "predict", Q.X), (Q.m,)),
        "predict with variance": lambda p, Q: two(p.w, "prediction", p.w.meth(gp(p), "predict", Q.X, return_var=True), (Q.m,)),
        "predict, full state": lambda p, Q: full(p, "full prediction", p.w.meth(gp(p), "predict", Q.X, return_full_state=True), Q),
        "predict, component by name": lambda p, Q: two(p.w, "prediction", p.w.meth(gp(p), "predict", Q.X, kernel=name(p), return_var=True), (Q.m,)),
        "predict, component by kernel": lambda p, Q: read(p.w, "prediction", p.w.meth(gp(p), "predict", Q.X, kernel=leaf(p)), (Q.m,)),
        "predict, own observation model": lambda p, Q: two(p.w, "prediction", p.w.meth(gp(p), "predict", Q.X, observation_model=own(p), return_var=True), (Q.m,)),
        "predict directly from data": lambda p, Q: two(p.w, "prediction", p.w.meth(p.gp, "predict", Q.X, y(p), return_var=True), (Q.m,)),
        "predict directly from data by keyword": lambda p, Q: read(p.w, "prediction", p.w.meth(p.gp, "predict", X_test=Q.X, y=y(p)), (Q.m,)),
        "predict directly from data, full state": lambda p, Q: full(p, "full prediction", p.w.meth(p.gp, "predict", Q.X, y(p), return_full_state=True), Q),
        "predict directly from data, component": lambda p, Q: read(p.w, "prediction", p.w.meth(p.gp, "predict", Q.X, y(p), kernel=name(p)), (Q.m,)),
        "predict directly at the data": lambda p, Q: two(p.w, "prediction", p.w.meth(p.gp, "predict", y=y(p), return_var=True), (n(p),)),
        "predict after conditioning at test coordinates": lambda p, Q: read(p.w, "prediction", p.w.meth(gp(p, Q.X), "predict", Q.X), (Q.m,)),
        "result at the test coordinates it was conditioned for": lambda p, Q: two(p.w, "prediction", p.w.meth(gp(p, Q.X), "predict", return_var=True), (Q.m,)),
        "component mean": lambda p, Q: read(p.w, "component", p.w.meth(gp(p), "get_component_mean", name(p)), (n(p),)),
        "component mean with variance": lambda p, Q: two(p.w, "component", p.w.meth(gp(p), "get_component_mean", [name(p)], return_var=True), (n(p),)),
        "all component means": lambda p, Q: [read(p.w, "component", v, (n(p),)) for v in p.w.meth(gp(p), "get_all_component_means").values()],
        "all component means with variance": lambda p, Q: [two(p.w, "component", v, (n(p),)) for v in p.w.meth(gp(p), "get_all_component_means", return_var=True).values()],
    }
    if integ(sol):
        out["predict at plain times"] = lambda p, Q: read(p.w, "prediction", p.w.meth(gp_nomean(p), "predict", Q.t), (Q.m,))
    return out


def gp_nomean(p):
    return p.w.attr(p.w.meth(p.gp, "condition", p.D.y), "gp")


def requests(w, p, sol):
    D = p.D
    ts = A.Arr((D.K,), fn=lambda i: D.time(i)) if integ(sol) else D.t
    Q = Requests(w, D, ts, tuple_coords=integ(sol))
    for _, j in Q.positions():
        Q.place[A.idx_key(j)] = ("after", p.K)
    search = w.c.hooks["searchsorted"]
    w.c.hooks["searchsorted"] = lambda a, v, side: search(a, v, side) if v.key in Q.index else p.K     # the data's own coordinates
    return Q


def accepted(R, sol, comps, mean):
    for nm, call in conventions(sol).items():
        if nm == "predict at plain times" and mean == "function":
            continue
        def f(w, call=call):
            p = Process(w, sol, 1, None, comps=comps, mean=mean)
            call(p, requests(w, p, sol))
        R.obl(f"{sol}, {comps} component(s), mean {mean}: {nm}", f, WHERE, limit=3000)


def noises(R, sol):
    for nm in NOISES:
        for mnm in ("nothing", "zero", "a function"):
            def f(w, nm=nm, mnm=mnm):
                p = Process(w, sol, 1, None, mean="none")
                D = p.D
                kw, _ = noise_forms(w, D)[nm]
                m, _ = mean_forms(w)[mnm]
                kw = dict(kw, **({} if mnm == "nothing" else {"mean": m}))
                for what, extra in (("default solver", {}), ("solver class", {"solver": w.get(SOLVERS[sol])}), ("solver object", {"solver": p.solver})):
                    g = w.call(GP, p.kernel, p.X, **dict(kw, **extra))
                    read(w, f"{what}: noise of the process", w.meth(w.attr(g, "noise"), "diagonal"), (D.n,))
                    read(w, f"{what}: prior mean", w.attr(g, "loc"), (D.n,))
                    if extra.get("solver") is p.solver:
                        read(w, f"{what}: log probability", w.meth(g, "log_probability", D.y), ())
            R.obl(f"{sol}: noise given as {nm}, mean as {mnm}", f, WHERE + ".__init__", limit=3000)


def solvers(R, sol, n, d):
    """the solver used on its own"""
    w_ = SOLVERS[sol]
    def f(w):
        cls = w.get(SOLVERS[sol])
        D = (Exposures if integ(sol) else Data)(w, n)
        X = D.X if integ(sol) else D.t
        k = (generic.integrated if integ(sol) else generic.kernel)(w, "g", d)
        dim = w.attr(k, "dimension")
        K = D.K if integ(sol) else D.n
        sv = w.call(cls, k, X, D.diag_noise())
        if integ(sol) and n is not None:
            D.read_literal(w, [M.AA(x) for x in w.attr(sv, "state_coords")])
        st = ((K, dim), (K, dim, dim))
        for kw in ({}, {"return_v_S": True}, {"return_v_S": False}):
            lab = f"filter with {kw}"
            r = list(tup(w, w.meth(sv, "Kalman", D.y, **kw), lab) or ())
            full = kw.get("return_v_S", len(r) == 6)
            if not w.eqb(f"{lab}: number of results", len(r), 6 if full else 4):
                return
            for a, s in zip(r, st + st + ((D.n, 1), (D.n, 1, 1))):
                read(w, lab, a, s, values=False)
            lab = f"conditioning with {kw}"
            c = w.parts(lab, w.meth(sv, "condition", D.y, **kw), 3)
            for a, sh in zip(w.parts(lab + ": coordinates", c[0], 4), ((K,), (D.n,) if integ(sol) else (K,), (K,), (K,))):
                read(w, lab + ": coordinates", a, sh, values=False)
            for pair in w.parts(lab + ": states", c[1], 3):
                for a, sh in zip(w.parts(lab, pair, 2), st):
                    read(w, lab + ": states", a, sh, values=False)
            if kw:
                w.eqb(f"{lab}: innovations returned", c[2] is not None, kw["return_v_S"])
            ts = A.Arr((D.K,), fn=lambda i: D.time(i)) if integ(sol) else D.t
            Q = Requests(w, D, ts, tuple_coords=integ(sol))
            for _, j in Q.positions():
                Q.place[A.idx_key(j)] = ("after", K)
            two(w, f"prediction from the {lab}", w.meth(sv, "predict", Q.X, c), (Q.m, dim), (Q.m, dim, dim))
            if integ(sol):
                two(w, f"prediction at plain times from the {lab}", w.meth(sv, "predict", Q.t, c), (Q.m, dim), (Q.m, dim, dim))
    R.obl(f"{sol} on its own, {label(n)}, order {d}", f, w_, limit=3000)


def misuse(R):
    def must(name, f, where=WHERE):
        """every path of f must raise; the argument errors that count are those the interpreter attributes to the program"""
        def g(w):
            try:
                f(w)
            except PyError:
                return
            w.bad("", "returns instead of raising an error")
        R.obl(name, g, where, limit=3000)
    y = lambda p: p.D.y
    for sol in SOLVERS:
        P = lambda w, sol=sol, **k: Process(w, sol, 1, None, **k)
        def longer(w, p, tag):
            m = atom("M2", aff=True, integral=True, iv=Iv(Fraction(24), N.INF, False, True))
            w.c.subst[("M2",)] = {("M2", "slack"): 1, None: 24}
            return A.Arr((m,), fn=lambda i: atom(tag, A.idx_key(i)))
        for what, call in {
            "log probability": lambda w, p, z: w.meth(p.gp, "log_probability", z),
            "condition": lambda w, p, z: w.meth(p.gp, "condition", z),
            "prediction": lambda w, p, z: w.meth(p.gp, "predict", p.X, z),
        }.items():
            def f(w, call=call, P=P):
                p = P(w)
                call(w, p, longer(w, p, "z"))
            must(f"{sol}: {what} of data of another length", f)
            def f(w, call=call, P=P):
                p = P(w)
                k = (generic.integrated if integ(p.sol) else generic.kernel)(w, "q", 1)
                p.gp = w.call(GP, k, p.X, diag=p.D.r, solver=w.get(SOLVERS[p.sol]))
                call(w, p, A.Arr((p.D.n, 2), fn=lambda i, j: atom("y2", A.idx_key(i), j)))
            must(f"{sol}: {what} of data with two columns", f)
        def f(w, P=P):
            p = P(w)
            w.call(GP, p.kernel, p.X, diag=longer(w, p, "r2"), solver=w.get(SOLVERS[p.sol]))
        must(f"{sol}: noise of another length", f)
        def f(w, P=P):
            p = P(w)
            w.call(GP, p.kernel, p.X, diag=p.D.r, mean=I.Builtin("mu", lambda X: A.stack([M.AA(X[0] if isinstance(X, tuple) else X)] * 2, 0)),
                   solver=w.get(SOLVERS[p.sol]))
        must(f"{sol}: a mean with two values per coordinate", f)
        def f(w, P=P):
            p = P(w)
            w.call(GP, p.kernel, p.X, diag=p.D.r, mean=A.Arr((2,), fn=lambda i: atom("mm", i)))
        must(f"{sol}: a constant mean with two values", f)
        def f(w, P=P):
            p = P(w)
            w.meth(p.gp, "predict", p.X)
        must(f"{sol}: prediction of a process without data", f)
        def f(w, P=P):
            p = P(w)
            w.meth(p.gp, "predict")
        must(f"{sol}: prediction at the data of a process without data", f)
        for m in ("get_component_mean", "get_all_component_means"):
            for rv in (False, True):
                def f(w, P=P, m=m, rv=rv):
                    p = P(w)
                    w.meth(p.gp, m, *([p.names[0]] if m == "get_component_mean" else []), return_var=rv)
                must(f"{sol}: {m} of a process without data" + (", with variance" if rv else ""), f, WHERE + "." + m)
        bad = {"with another number of axes": lambda w, p, Q: tuple(_two(x) for x in p.X) if integ(p.sol) else _two(p.X)}
        if integ(sol):
            for e, entry in enumerate(("times", "exposure times", "instruments")):
                bad[f"with another number of axes of the {entry}"] = lambda w, p, Q, e=e: tuple(_two(x) if i == e else x for i, x in enumerate(p.X))
            bad["that are plain times"] = lambda w, p, Q: p.D.t
            bad["with a missing entry"] = lambda w, p, Q: p.X[:2]
        for what, X in bad.items():
            def f(w, P=P, X=X):
                p = P(w, mean="none")
                w.meth(p.gp, "condition", y(p), X(w, p, None))
            must(f"{sol}: conditioning at test coordinates {what}", f, WHERE + ".condition")
    # kernels
    def f(w):
        D = Data(w, None)
        w.call(GP, w.call("tinygp.kernels.ExpSquared"), D.t, diag=D.r)
    must("a kernel without state space form and no solver", f)
    def f(w):
        D = Data(w, None)
        w.call(GP, w.call("tinygp.kernels.quasisep.Matern32", scale=asarr(pos("ell"))), D.t, diag=D.r)
    must("a quasiseparable kernel of another library and no solver", f)
    def f(w):
        D = Data(w, None)
        w.call(GP, w.it.binop("Add", generic.kernel(w, "g", 1), w.call("tinygp.kernels.ExpSquared")), D.t, diag=D.r)
    must("a sum with a kernel without state space form", f)
    vec = lambda: A.Arr((2,), fn=lambda i: atom("c", i))
    for what, op, other in (("a number added to a kernel", "Add", lambda w: const(3)), ("an array added to a kernel", "Add", lambda w: vec()),
                            ("a kernel times an array", "Mult", lambda w: vec()),
                            ("a kernel times a kernel without state space form", "Mult", lambda w: w.call("tinygp.kernels.ExpSquared"))):
        for left in (True, False) if "state space" not in what else (True,):
            def f(w, op=op, other=other, left=left):
                a, b = generic.kernel(w, "g", 1), other(w)
                w.it.binop(op, *((a, b) if left else (b, a)))
            must(what + ("" if left else ", reversed"), f, "smolgp.kernels.base.StateSpaceModel")
    from .C10 import shapes
    for nm, build, has in shapes():
        if not has:
            continue
        for what, X in (("plain times", lambda E: E.t), ("a tuple of times only", lambda E: (E.t,)), ("a list of times", lambda E: [E.t])):
            def f(w, build=build, X=X):
                E = Exposures(w, None)
                w.call(GP, build(w), X(E), diag=E.r)
            must(f"exposure kernel [{nm}] with {what}", f)
    for nu in (Fraction(2), Fraction(1), Fraction(7, 4), Fraction(9, 4), 1, 2, 3):
        def f(w, nu=nu):
            w.call("smolgp.kernels.base.Matern", nu=nu, scale=asarr(pos("ell")), sigma=asarr(pos("sigma")))
        must(f"Matern of smoothness {nu} ({type(nu).__name__})", f, "smolgp.kernels.base.Matern.__init__")
    for what, call in {"covariance of the process": lambda w, g: w.attr(g, "covariance"),
                       "samples": lambda w, g: w.meth(g, "sample", ("key", 0))}.items():
        def f(w, call=call):
            D = Data(w, None)
            call(w, w.call(GP, generic.kernel(w, "g", 1), D.t, diag=D.r))
        must(f"not available: {what}", f)


def _two(x):
    return A.Arr(x.shape + (2,), fn=lambda *i: x.get(i[:-1]))


def every_kernel(R):
    """every documented kernel runs through every solver that is meant for it"""
    for it, s in [(False, s) for s in catalog.leaf_specs()] + [(True, s) for s in catalog.integrated_specs()]:
        for sol in SOLVERS:
            if integ(sol) != it:
                continue
            def f(w, s=s, sol=sol, it=it):
                w.c.hooks["isfinite"] = lambda x: True
                D = (Exposures if it else Data)(w, 1)
                k = s.build(w, w.get(s.cls))
                dim = w.attr(k, "dimension")
                K = 2 if it else 1
                sv = w.call(w.get(SOLVERS[sol]), k, D.X if it else D.t, D.diag_noise())
                if it:
                    D.read_literal(w, [M.AA(x) for x in w.attr(sv, "state_coords")])
                try:
                    c = w.parts("conditioning", w.meth(sv, "condition", D.y, return_v_S=True), 3)
                    for pair in w.parts("states", c[1], 3):
                        read(w, "states", pair[0], (K, dim), values=False)
                        read(w, "states", pair[1], (K, dim, dim), values=False)
                except SingularMatrix:
                    pass        # not an exception of the program; C07 and C08 decide whether the gains exist
            R.obl(f"{s.name} with {sol}", f, s.cls, limit=3000)


def run(R):
    for sol in SOLVERS:
        accepted(R, sol, 1, "function")
        accepted(R, sol, 2, "none")
        if R.tier != "quick":
            accepted(R, sol, 3, "constant")
            accepted(R, sol, 1, "none")
        noises(R, sol)
        for d in (1, 2):
            solvers(R, sol, None, d)
            solvers(R, sol, 1, d)
    misuse(R)
    every_kernel(R)
    return R.finish("other", {"explanation":
        "each documented calling convention is a typestate path through the public entry points; every path is followed through the source "
        "for any number of data: supported paths end in arrays of the documented shapes, unsupported ones in an exception"}, 200)
