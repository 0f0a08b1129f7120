"""Exposures become a sorted, labelled state sequence."""
from ..api import *
from .. import generic
from ..solverlib import SOLVERS, tup, at, label, sizes
from ..exposures import Exposures

INTEGRATED = ("IntegratedStateSpaceSolver", "ParallelIntegratedStateSpaceSolver")


def run(R):
    for sol in INTEGRATED:
        def f(w, sol=sol):
            D = Exposures(w)
            s = w.call(SOLVERS[sol], generic.integrated(w, "gi", 1), D.X, None)
            coords = tup(w, w.attr(s, "state_coords"), "state coordinates")
            if coords is None or not w.eqb("state coordinates are time, instrument, observation, start/end label", len(coords), 4):
                return
            for p in D.problems:
                w.bad("order of the states", p)
            if D.sorted is None:
                w.bad("order of the states", "the exposure boundaries are not sorted")
                return
            ts, inst, obs, st = [M.AA(x) for x in coords]
            for nm, a, n in (("state times", ts, D.K), ("instruments", inst, D.n), ("observation numbers", obs, D.K),
                             ("start/end labels", st, D.K)):
                w.eqb(f"number of {nm}", A.dim_eq(a.shape[0], n), True)
            if w.mis:
                return
            for lab, i in D.positions():
                o, e = D.event(i)
                w.eq(f"{lab}: observation number", at(obs, i), arr0(lift(o)))
                w.eq(f"{lab}: start/end label", at(st, i), arr0(int(e)))
                w.eq(f"{lab}: time", at(ts, i), arr0(D.boundary(o, e)))
                w.eq(f"{lab}: instrument of its observation", at(inst, o), at(D.inst, o))
        R.obl(f"{sol}: state sequence, any N, any interleaving", f, f"smolgp.solvers.integrated.{sol}.__init__")

        for n in (1, 2):
            def f(w, sol=sol, n=n):
                D = Exposures(w, n)
                s = w.call(SOLVERS[sol], generic.integrated(w, "gi", 1), D.X, None)
                ts, inst, obs, st = [M.AA(x) for x in w.attr(s, "state_coords")]
                D.read_literal(w, (ts, inst, obs, st))
                w.eqb("each exposure has one start and one end",
                      sorted(D.literal), sorted((o, e) for o in range(n) for e in (False, True)))
                if w.mis:
                    return
                for i, (o, e) in enumerate(D.literal):
                    w.eq(f"state {i}: time", at(ts, i), arr0(D.boundary(o, e)))
                    if i:
                        d = add(D.boundary(o, e), neg(D.boundary(*D.literal[i - 1])))
                        if w.c.decide(d, lambda s: s < 0):
                            w.bad("order of the states", f"state {i} is earlier than state {i - 1}")
                        elif w.c.decide(d, lambda s: s == 0) and e and not D.literal[i - 1][1]:
                            w.bad("order of the states", f"state {i} is an exposure end sorted after a start at the same time")
            R.obl(f"{sol}: every order of the boundaries of {n} exposure(s)", f,
                  f"smolgp.solvers.integrated.{sol}.__init__", limit=3000)
    return R.finish("proof", {"explanation":
        "the sort keys, labels and gathers are followed for an arbitrary state of an arbitrary interleaving; "
        "literal N explores every order of the boundaries"}, 6)
