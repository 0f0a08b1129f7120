"""Components: distinct names, each its own term, together the total."""
import itertools

from ..api import *
from .. import generic, catalog
from ..projection import *
from ..prediction import Requests

ASSIGN = "smolgp.gp.assign_unique_kernel_names"
LEAVES = "smolgp.kernels.base.extract_leaf_kernels"


def shapes(n):
    """all binary trees over leaves 0..n-1"""
    def trees(lo, hi):
        if hi - lo == 1:
            return [lo]
        return [(l, r) for m in range(lo + 1, hi) for l in trees(lo, m) for r in trees(m, hi)]
    return trees(0, n)


def build(w, tree, leaves):
    return leaves[tree] if isinstance(tree, int) else w.it.binop("Add", build(w, tree[0], leaves), build(w, tree[1], leaves))


def subsets(n):
    """selections of one to all of n components, in both orders"""
    out = [list(range(n)), list(range(n))[::-1], [0, n - 1], [n - 1]]
    return [x for i, x in enumerate(out) if x not in out[:i] and len(set(x)) == len(x)]


MATS = ("design_matrix", "stationary_covariance", "noise", "noise_effect_matrix")


def same_model(w, what, got, want, t1, t2, full=True):
    w.eqb(f"{what}: kind", got.cls.name, want.cls.name)
    for m in MATS if full else MATS[:2]:
        w.eq(f"{what}: {m}", w.meth(got, m), w.meth(want, m))
    X1, X2 = arr0(t1), arr0(t2)
    for m in ("transition_matrix", "process_noise"):
        w.eq(f"{what}: {m}", w.meth(got, m, X1, X2), w.meth(want, m, X1, X2))


def naming(R, n, alphabet, trees):
    for tree in trees:
        def f(w, tree=tree):
            t1 = atom("t1")
            for names in itertools.product(alphabet, repeat=n):
                ks = [generic.kernel(w, f"k{i}", 1, name=nm) for i, nm in enumerate(names)]
                k = w.call(ASSIGN, build(w, tree, ks))
                out = w.call(LEAVES, k)
                lab = f"names {list(names)}"
                if not w.eqb(f"{lab}: number of components", len(out), n):
                    return
                new = [w.attr(o, "name") for o in out]
                w.eqb(f"{lab}: distinct names {new}", len(set(new)), n)
                for i, (o, nm) in enumerate(zip(out, names)):
                    w.eqb(f"{lab}: component {i} is the {i}-th term", w.attr(o, "tag"), f"k{i}")
                    if names.count(nm) == 1:
                        w.eqb(f"{lab}: name given by the user to component {i}", w.attr(o, "name"), nm)
                    row = w.meth(k, "observation_model", arr0(t1), component=new[i])
                    want = A.concatenate([generic.H(f"k{c}", 1, arr0(t1)) if c == i else A.full((1, 1), 0) for c in range(n)], 1)
                    w.eq(f"{lab}: what component '{new[i]}' observes", row, want)
                tot = w.meth(k, "observation_model", arr0(t1))
                w.eq(f"{lab}: the whole observes all of them", tot, A.concatenate([generic.H(f"k{c}", 1, arr0(t1)) for c in range(n)], 1))
                again = [w.attr(o, "name") for o in w.call(LEAVES, w.call(ASSIGN, k))]
                w.eqb(f"{lab}: assigning names again", again, new)
                for i, q in enumerate(ks):
                    w.eqb(f"{lab}: the kernel given by the user keeps its name", w.attr(q, "name"), names[i])
                if w.mis:
                    return
        R.obl(f"names of {n} components, tree {tree}", f, ASSIGN)


def kinds(R):
    """renaming every documented kernel, and composed components, leaves the model unchanged"""
    specs = catalog.leaf_specs() + catalog.integrated_specs()
    for s in specs:
        def f(w, s=s):
            N.KSER  # noqa
            mk = lambda **kw: s.build(w, w.get(s.cls), **kw)
            extra = [{}] if s.base is None else [{}, {"num_insts": 2}]
            for kw in extra:
                a, b = mk(**kw), mk(**kw)
                k = w.call(ASSIGN, w.it.binop("Add", a, b))
                o = w.call(LEAVES, k)
                if not w.eqb("number of components", len(o), 2):
                    return
                n1, n2 = w.attr(o[0], "name"), w.attr(o[1], "name")
                w.eqb("distinct names", n1 != n2, True)
                t = atom("t1")
                d = N.lag()
                for x, nm in zip(o, "12"):
                    same_model(w, f"renamed component {nm}", x, a, const(0), d)
                    w.eqb("dimension", w.attr(x, "dimension"), w.attr(a, "dimension"))
                    X = arr0(t) if s.base is None else (arr0(t), arr0(pos("texp")), arr0(const(kw.get("num_insts", 1) - 1)))
                    w.eq("observation", w.meth(x, "observation_matrix", X), w.meth(a, "observation_matrix", X))
                    if s.base is not None:
                        w.eqb("number of instruments", w.attr(x, "num_insts"), w.attr(a, "num_insts"))
                        for i in range(kw.get("num_insts", 1)):
                            w.eq("reset", w.meth(x, "reset_matrix", arr0(const(i))), w.meth(a, "reset_matrix", arr0(const(i))))
        R.obl(f"renaming {s.name}", f, ASSIGN)
    g = lambda w, t, nm="a": generic.kernel(w, t, 1, name=nm)
    mulk = lambda w, x, y: w.it.binop("Mult", x, y)
    addk = lambda w, x, y: w.it.binop("Add", x, y)
    parts = {
        "product": lambda w: mulk(w, g(w, "p"), g(w, "q")),
        "product of a sum": lambda w: mulk(w, addk(w, g(w, "p"), g(w, "q")), g(w, "r")),
        "scaled": lambda w: mulk(w, asarr(pos("c")), g(w, "p")),
        "scaled sum": lambda w: mulk(w, asarr(pos("c")), addk(w, g(w, "p"), g(w, "q"))),
        "scaled product": lambda w: mulk(w, asarr(pos("c")), mulk(w, g(w, "p"), g(w, "q"))),
    }
    for nm, mk in parts.items():
        def f(w, mk=mk):
            a, b, c = mk(w), mk(w), g(w, "z")
            k = w.call(ASSIGN, addk(w, addk(w, a, c), b))
            o = w.call(LEAVES, k)
            if not w.eqb("number of components", len(o), 3):
                return
            names = [w.attr(x, "name") for x in o]
            w.eqb(f"distinct names {names}", len(set(names)), 3)
            t = arr0(atom("t1"))
            z = lambda x: A.full((1, w.attr(x, "dimension")), 0)
            for i, (x, y) in enumerate(zip(o, (a, c, b))):
                same_model(w, f"component {i}", x, y, const(0), N.lag())
                w.eq(f"component {i}: observation", w.meth(x, "observation_matrix", t), w.meth(y, "observation_matrix", t))
                w.eq(f"component {i} through its name", w.meth(k, "observation_model", t, component=names[i]),
                     A.concatenate([w.meth(y, "observation_matrix", t) if j == i else z(p) for j, p in enumerate((a, c, b))], 1))
        R.obl(f"renaming a component that is a {nm}", f, ASSIGN)


def process(R, sol, comps, names, n=None, pts=(0, 1, 2)):
    lab = f"{sol}, {label(n)}, components named {list(names)}"
    w_ = "smolgp.gp.GaussianProcess"

    def final(p):
        got = [p.w.attr(o, "name") for o in p.w.call(LEAVES, p.w.attr(p.gp, "kernel"))]
        p.w.eqb(f"distinct component names {got}", len(set(got)) == comps == len(got), True)
        return got

    for k in pts if n is None else range(n):
        def f(w, k=k):
            p = Process(w, sol, 1, n, comps=comps, mean="function", names=names)
            D = p.D
            c = w.attr(w.meth(p.gp, "condition", D.y), "gp")
            nm = final(p)
            w.eqb("names after conditioning", [w.attr(o, "name") for o in w.call(LEAVES, w.attr(c, "kernel"))], nm)
            i = p.points()[k]
            allm, allv = w.meth(c, "get_all_component_means"), w.meth(c, "get_all_component_means", return_var=True)
            w.eqb("components reported", list(allm), nm)
            w.eqb("components reported with variance", list(allv), nm)
            if w.mis:
                return
            tot = const(0)
            for q, name in enumerate(nm):
                wm, wP = p.at_data(i, {q})
                p.check(f"mean of component {q}", allm[name], wm, i)
                gm, gv = w.parts("component with its variance", allv[name], 2)
                p.check(f"mean of component {q} (with variance)", gm, wm, i)
                p.check(f"variance of component {q}", gv, wP, i)
                p.check(f"component {q} by name", w.meth(c, "get_component_mean", name), wm, i)
                p.lengths(f"component {q}", D.n, allm[name], gm, gv)
                pm, pv = w.parts("prediction of a component", w.meth(c, "predict", kernel=name, return_var=True), 2)
                p.check(f"prediction of component {q} by name", pm, wm, i)
                p.check(f"variance of the prediction of component {q} by name", pv, wP, i)
                leaf = w.call(LEAVES, w.attr(c, "kernel"))[q]
                p.check(f"prediction of component {q} by its kernel", w.meth(c, "predict", kernel=leaf), wm, i)
                q1 = w.attr(w.meth(p.gp, "condition", D.y, kernel=leaf, include_mean=False), "gp")
                p.check(f"conditioning for component {q}", w.attr(q1, "loc"), wm, i)
                p.check(f"conditioning for component {q}, variance", w.attr(q1, "variance"), wP, i)
                if w.mis:
                    return
                tot = add(tot, A.num(M.AA(allm[name]).get((i,))))
            w.eq("the component means add up to the mean", arr0(add(tot, lift(p.mu(p.X, i)))), at(M.AA(w.attr(c, "loc")), i))
            for pick in subsets(comps):
                wm, wP = p.at_data(i, set(pick))
                gm, gv = w.parts("several components with variance",
                                 w.meth(c, "get_component_mean", [nm[q] for q in pick], return_var=True), 2)
                p.check(f"joint mean of components {pick}", gm, wm, i)
                p.check(f"joint variance of components {pick}", gv, wP, i)
                p.check(f"joint mean of components {pick} (alone)", w.meth(c, "get_component_mean", [nm[q] for q in pick]), wm, i)
        R.obl(f"{lab}: at the data, {('first', 'interior', 'last')[k] if n is None else 'point ' + str(k)}", f, w_ + ".get_component_mean", limit=3000)
    if n is not None:
        return
    for k in pts:
        def f(w, k=k):
            p = Process(w, sol, 1, None, comps=comps, mean="function", names=names)
            D = p.D
            nm = final(p)
            ts = A.Arr((D.K,), fn=lambda i: D.time(i)) if integ(sol) else D.t
            Q = Requests(w, D, ts, tuple_coords=integ(sol))
            _, j = Q.positions()[k]
            Q.place[A.idx_key(j)] = ("after", p.K)
            m, P = w.parts("prediction of the solver", w.meth(p.solver, "predict", Q.X, w.meth(p.solver, "condition", D.y)), 2)
            m, P = at(M.AA(m), j), at(M.AA(P), j)
            c = w.attr(w.meth(p.gp, "condition", D.y), "gp")
            s = w.meth(c, "predict", Q.X, return_full_state=True)
            allm, allv = w.meth(s, "get_all_components"), w.meth(s, "get_all_components", return_var=True)
            w.eqb("components reported", list(allm), nm)
            w.eqb("components reported with variance", list(allv), nm)
            if w.mis:
                return
            for q, name in enumerate(nm):
                wm, wP = p.seen(Q.X, j, m, P, {q})
                p.lengths(f"component {q}", Q.m, allm[name])
                p.check(f"mean of component {q}", allm[name], wm, j)
                gm, gv = w.parts("component with its variance", allv[name], 2)
                p.check(f"mean of component {q} (with variance)", gm, wm, j)
                p.check(f"variance of component {q}", gv, wP, j)
                p.check(f"component {q} by name", w.meth(s, "get_component", name), wm, j)
                pm, pv = w.parts("prediction of a component", w.meth(c, "predict", Q.X, kernel=name, return_var=True), 2)
                p.check(f"prediction of component {q} by name", pm, wm, j)
                p.check(f"variance of the prediction of component {q} by name", pv, wP, j)
                leaf = w.call(LEAVES, w.attr(c, "kernel"))[q]
                p.check(f"prediction of component {q} by its kernel", w.meth(c, "predict", Q.X, kernel=leaf), wm, j)
                q1 = w.attr(w.meth(p.gp, "condition", D.y, Q.X, kernel=leaf, include_mean=False), "gp")
                p.check(f"conditioning for component {q} at test coordinates", w.attr(q1, "loc"), wm, j)
                if w.mis:
                    return
            for pick in subsets(comps):
                wm, wP = p.seen(Q.X, j, m, P, set(pick))
                gm, gv = w.parts("several components", w.meth(s, "get_component", [nm[q] for q in pick], return_var=True), 2)
                p.check(f"joint mean of components {pick}", gm, wm, j)
                p.check(f"joint variance of components {pick}", gv, wP, j)
        R.obl(f"{lab}: at {('first', 'interior', 'last')[k]} requested coordinate", f, "smolgp.gp.PredictedStates.get_component", limit=3000)


def run(R):
    naming(R, 1, ["a", "a_1"], shapes(1))
    naming(R, 2, ["a", "a_1", "b", "a_2", "a_1_1"], shapes(2))
    naming(R, 3, ["a", "a_1", "a_2", "b"], shapes(3))
    naming(R, 4, ["a", "a_1", "a_2"], shapes(4))
    if R.tier != "quick":
        naming(R, 5, ["a", "a_1", "a_2"], shapes(5)[:3] + shapes(5)[-3:])
        naming(R, 4, ["a", "a_1", "a_2", "a_3", "a_1_1", "b"], [shapes(4)[0], shapes(4)[-1]])
    kinds(R)
    for sol in SOLVERS:
        process(R, sol, 2, ("a", "b"))
        process(R, sol, 3, ("a", "a", "b"), pts=(1,)) if sol != "ParallelIntegratedStateSpaceSolver" or R.tier != "quick" else None
        process(R, sol, 2, ("a", "a"), n=1)
        if R.tier != "quick":
            process(R, sol, 3, ("a", "a", "a"), n=2)
            process(R, sol, 4, ("a_1", "a", "a", "b"), pts=(1,))
    return R.finish("proof", {"explanation":
        "names of up to four components enumerated over all nestings and over an alphabet with clashes; each named component observes "
        "exactly its own term, and reported component means and variances are the projections of that term"}, 60)
