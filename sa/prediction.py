"""Test coordinates: an arbitrary number M, in any order, each before / between / after the states or on one."""
from .api import *
from .solverlib import at, dn, prev, nxt

WHERE = ("before", "between", "after", "on a state")


class Requests:
    """M requested coordinates over the states of a data set D (Data or Exposures)"""

    def __init__(self, w, D, states, tuple_coords=False, place=None, m=None):
        self.w, self.D = w, D
        self.K = states.shape[0]
        self.states = states
        c = w.c
        if m is None:
            m = atom("M", aff=True, integral=True, iv=Iv(Fraction(24), N.INF, False, True))
            c.subst[("M",)] = {("M", "slack"): 1, None: 24}
        self.m = m
        self.index = {}
        self.place = place or {}        # index key -> (where, state index)
        self.problems = []
        self.t = self.vec("x")
        self.X = self.t
        if tuple_coords:
            self.X = (self.t, A.Arr((m,), fn=lambda i: atom("xe", A.idx_key(i), iv=Iv(Fraction(0), N.INF, False, True))),
                      A.Arr((m,), fn=lambda i: atom("xi", A.idx_key(i), integral=True, iv=Iv(Fraction(0), N.INF, False, True))))
        c.hooks["searchsorted"] = self.search
        self.orders()

    def vec(self, name):
        def fn(i):
            p = self.place.get(A.idx_key(i))
            s = A.num(at(self.states, p[1]).get(())) if p and p[0] == "on a state" else atom(name, A.idx_key(i))
            self.index[s.key] = i
            return s
        return A.Arr((self.m,), fn=fn)

    def positions(self):
        m = self.m
        if isinstance(m, int):
            return [(f"request {i}", i) for i in range(m)]
        return [("first request", 0), ("interior request", A.gen_index(m, 3)), ("last request", dn(add(m, const(-1))))]

    def where(self, j):
        k = A.idx_key(j)
        if k not in self.place:         # another request: anywhere
            d = atom("where", k, integral=True, iv=Iv(Fraction(-1), Fraction(1), False, False))
            b, a = ctx().decide(d, lambda s: s < 0), ctx().decide(d, lambda s: s > 0)
            self.place[k] = ("before" if b else "after" if a else "between", 5)
        return self.place[k]

    def orders(self):
        """what the program can find out by comparing a request with a state"""
        c = self.w.c
        ts = self.D.t.get((0,)).args[0]
        if ts not in c.ordered:
            return
        c.order_group["x"] = c.order_group[ts] = "coordinates"
        half = const(Fraction(-1, 2))

        def position(x):
            wh, k = self.where(self.index[x.key])
            return half if wh == "before" else add(lift(self.K), half) if wh == "after" else add(lift(k), half)
        c.ordered["x"] = position

    def neighbours(self, j):
        """the request j against the states around it, when their order is not that of the indices"""
        wh, k = self.where(j)
        x = A.num(at(self.t, j).get(()))
        T_ = lambda i: A.num(at(self.states, i).get(()))
        last = dn(add(lift(self.K), const(-1)))
        above = [0] if wh == "before" else [k, last] if wh == "between" else []
        below = [last, 0] if wh == "after" else [prev(k), 0] if wh == "between" else []
        for i in above:
            self.w.c.fact(add(x, neg(T_(i))), {-1})
        for i in below:
            self.w.c.fact(add(x, neg(T_(i))), {1})

    def search(self, a, v, side):
        """position of the request v among the sorted states"""
        for i in (0, 1, A.gen_index(self.K, 1)) if not isinstance(self.K, int) else range(self.K):
            g, want = A.num(a.get((i,))), A.num(at(self.states, i).get(()))
            if g.key != want.key:
                self.problems.append(f"requests are located among {show(g)[:120]} ; required {show(want)[:120]}")
                break
        if not A.dim_eq(a.shape[0], self.K):
            self.problems.append("requests are located among another number of points than there are states")
        j = self.index.get(v.key)
        if j is None:
            # located by something else than the requested coordinate
            for a_ in N.deps(v):
                if a_[0] == "x":
                    self.problems.append(f"requests are located by {show(v)[:120]} instead of their own coordinate")
                    return 0
            raise Unsupported("a value that is not a requested coordinate is located among the states")
        wh, k = self.where(j)
        if wh == "before":
            return 0
        if wh == "after":
            return self.K
        if wh == "on a state":
            return dn(k) if side == "left" else nxt(k)
        return dn(k)


def formula(w, model, cs, T_, k, x, K):
    """conditional at x where state k is the first one after x (k = 0: before all, k = K: after all)"""
    (mp, Pp), (mf, Pf), (ms, Ps) = [[M.AA(z) for z in p] for p in cs]
    if isinstance(k, int) and k == 0:
        m, P = A.full((model.dim,), 0), model.P()
    else:
        dt = add(x, neg(T_(prev(k))))
        Am = model.A(dt)
        m, P = mm(Am, at(mf, prev(k))), plus(mm(Am, at(Pf, prev(k)), T(Am)), model.Q(dt))
    if A.dim_eq(k, K):
        return m, P
    Am = model.A(add(T_(k), neg(x)))
    G = mm(P, T(Am), A.linv(at(Pp, k)))
    return plus(m, mm(G, minus(at(ms, k), at(mp, k)))), plus(P, mm(G, minus(at(Ps, k), at(Pp, k)), T(G)))
