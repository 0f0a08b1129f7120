"""Shared set-up of the solver level checks: arbitrary N, arbitrary model, sorted coordinates."""
from .api import *
from . import generic, num as N, interp as I


class Data:
    """N data points at sorted coordinates; n is a symbol or a literal"""

    def __init__(self, w, n=None, tag=""):
        self.w = w
        c = w.c
        if n is None:
            n = atom("N" + tag, aff=True, integral=True, iv=Iv(Fraction(24), N.INF, False, True))
            c.subst[("N" + tag,)] = {("N" + tag, "slack"): 1, None: 24}
        self.n = n
        self.index = {}
        self.t = self.vec("t" + tag)
        self.y = self.vec("y" + tag)
        self.r = self.vec("r" + tag, positive=True)
        for a, nm in ((self.t, "t"), (self.y, "y"), (self.r, "r")):      # element types of their own: integer or floating
            a.dt = frozenset({nm})
        ix = self.index

        def position(x):
            return ix[x.key]
        c.ordered["t" + tag] = position
        self.noise = None

    def vec(self, name, **kw):
        ix = self.index

        def fn(i):
            s = atom(name, A.idx_key(i), **kw)
            ix[s.key] = i
            return s
        return A.Arr((self.n,), fn=fn)

    def diag_noise(self):
        if self.noise is None:
            self.noise = self.w.call("tinygp.noise.Diagonal", diag=self.r)
        return self.noise

    def positions(self, gen=1):
        """(label, index): first ones, a generic interior one, last ones"""
        n = self.n
        if isinstance(n, int):
            return [(f"k={i}", i) for i in range(n)]
        k = A.gen_index(n, gen)
        return [("k=0", 0), ("k=1", 1), ("k=2", 2), ("interior k", k),
                ("k=N-2", dn(add(n, const(-2)))), ("k=N-1", dn(add(n, const(-1))))]

    def last(self, j):
        return isinstance(dn(add(lift(self.n), neg(lift(j)))), int) and dn(add(lift(self.n), neg(lift(j)))) == 1


def dn(x):
    return A.dim_norm(x)


def at(a, k):
    return A.getitem(M.AA(a), k)


def prev(k):
    return dn(add(lift(k), const(-1)))


def nxt(k):
    return dn(add(lift(k), const(1)))


def col(v):
    return A.reshape(v, (v.shape[0], 1))


def tup(w, x, what):
    if not isinstance(x, (tuple, list)):
        w.bad(what, f"returned {type(x).__name__} instead of a tuple")
        return None
    return x


def sizes(tier):
    return [None, 1, 2, 3] if tier == "quick" else [None, 1, 2, 3, 4, 5]


def label(n):
    return "any N" if n is None else f"N={n}"


SOLVERS = {
    "StateSpaceSolver": "smolgp.solvers.StateSpaceSolver",
    "ParallelStateSpaceSolver": "smolgp.solvers.ParallelStateSpaceSolver",
    "IntegratedStateSpaceSolver": "smolgp.solvers.integrated.IntegratedStateSpaceSolver",
    "ParallelIntegratedStateSpaceSolver": "smolgp.solvers.integrated.ParallelIntegratedStateSpaceSolver",
}


def filter_relation(w, D, tag, d, hm, out, positions=None, noise=True):
    """the filtered/predicted states and innovations satisfy the Kalman recursion at every position"""
    m, P, mp, Pp, v, S = [None if x is None else M.AA(x) for x in out]
    n = D.n
    w.eqb("number of filtered states", A.dim_eq(m.shape[0], n) and A.dim_eq(P.shape[0], n), True)
    w.eqb("number of predicted states", A.dim_eq(mp.shape[0], n) and A.dim_eq(Pp.shape[0], n), True)
    if v is not None:
        w.eqb("number of innovations", A.dim_eq(v.shape[0], n) and A.dim_eq(S.shape[0], n), True)
    if w.mis:
        return
    for lab, k in positions or D.positions():
        tk = arr0(at(D.t, k).get(()))
        if isinstance(k, int) and k == 0:
            want_m, want_P = A.full((d,), 0), generic.P(tag, d)
        else:
            tp = at(D.t, prev(k)).get(())
            Am, Q = generic.Amat(tag, d, tp, tk), generic.Q(tag, d, tp, tk)
            want_m = mm(Am, at(m, prev(k)))
            want_P = plus(mm(Am, at(P, prev(k)), T(Am)), Q)
        w.eq(f"{lab}: predicted mean", at(mp, k), want_m)
        w.eq(f"{lab}: predicted covariance", at(Pp, k), want_P)
        update_relation(w, lab, want_m, want_P, generic.H(tag, d, tk, hm), at(D.y, k).get(()),
                        at(D.r, k).get(()) if noise else const(0), at(m, k), at(P, k), at(v, k) if v is not None else None, at(S, k) if v is not None else None)


def update(mp, Pp, H, y, r):
    v = minus(A.reshape(arr0(y), (1,)), mm(H, mp))
    S = plus(mm(H, Pp, T(H)), A.reshape(arr0(r), (1, 1)))
    K = mm(Pp, T(H), A.linv(S))
    return v, S, plus(mp, mm(K, v)), minus(Pp, mm(K, S, T(K)))


def update_relation(w, lab, mp, Pp, H, y, r, m, P, v, S):
    wv, wS, wm, wP = update(mp, Pp, H, y, r)
    if v is not None:
        w.eq(f"{lab}: innovation", v, wv)
        w.eq(f"{lab}: innovation variance", S, wS)
    w.eq(f"{lab}: filtered mean", m, wm)
    w.eq(f"{lab}: filtered covariance", P, wP)


def smoother_relation(w, D, tag, d, f, s, positions=None):
    """RTS: last = filtered, others backward recursion with the transition to the next point"""
    (m, P), (mp, Pp), (ms, Ps) = [[M.AA(x) for x in z] for z in (f[:2], f[2:4], s)]
    n = D.n
    w.eqb("number of smoothed states", A.dim_eq(ms.shape[0], n) and A.dim_eq(Ps.shape[0], n), True)
    if w.mis:
        return
    for lab, k in positions or D.positions():
        if D.last(k):
            w.eq(f"{lab}: smoothed mean is the filtered one", at(ms, k), at(m, k))
            w.eq(f"{lab}: smoothed covariance is the filtered one", at(Ps, k), at(P, k))
            continue
        tk, tn = at(D.t, k).get(()), at(D.t, nxt(k)).get(())
        Am = generic.Amat(tag, d, tk, tn)
        G = mm(at(P, k), T(Am), A.linv(at(Pp, nxt(k))))
        w.eq(f"{lab}: smoothed mean", at(ms, k), plus(at(m, k), mm(G, minus(at(ms, nxt(k)), mm(Am, at(m, k))))))
        w.eq(f"{lab}: smoothed covariance", at(Ps, k),
             plus(at(P, k), mm(G, minus(at(Ps, nxt(k)), at(Pp, nxt(k))), T(G))))


# ------------------------------------------------------------------ the process level
def meanfn(w, name="mu"):
    """an opaque mean function of the coordinate"""
    return I.Builtin(name, lambda x: asarr(N.uninterp(name, *generic.coordkey(x))))


def mean_at(D, k, X=None, name="mu"):
    X = D.t if X is None else X
    xs = tuple(at(x, k) for x in X) if isinstance(X, tuple) else at(X, k)
    return N.uninterp(name, *generic.coordkey(xs))


def minus_vec(a, b):
    return A.Arr(a.shape, fn=lambda i: add(A.num(at(a, i).get(())), neg(A.num(b(i)))))


def ssum(n, body):
    """sum over the data (literal or symbolic number)"""
    n = dn(n)
    if isinstance(n, int):
        s = const(0)
        for i in range(n):
            s = add(s, lift(body(i)))
        return s
    return A.symbolic_sum(n, body)


# ------------------------------------------------------------------ shared relations
def filtered_states(w, D, tag, d):
    """arbitrary filtered states with the predictions that belong to them"""
    n = D.n

    def pred(k):
        if isinstance(k, int) and k == 0:
            return A.full((d,), 0), generic.P(tag, d)
        tp, tk = at(D.t, prev(k)).get(()), at(D.t, k).get(())
        Am = generic.Amat(tag, d, tp, tk)
        return mm(Am, at(m, prev(k))), plus(mm(Am, at(P, prev(k)), T(Am)), generic.Q(tag, d, tp, tk))
    m = A.Arr((n, d), fn=lambda i, j: atom("mf", A.idx_key(i), j))
    P = A.Arr((n, d, d), fn=lambda i, j, k: atom("Pf", A.idx_key(i), *sorted((j, k))))
    return m, P, A.Arr((n, d), fn=lambda i, *r: pred(i)[0].get(r)), A.Arr((n, d, d), fn=lambda i, *r: pred(i)[1].get(r))



def bd(a, b):
    return mat([[a.get((0, 0)), const(0)], [const(0), b.get((0, 0))]])


def composed_relation(w, D, op, out):
    """filter recursion of the sum / product of two arbitrary order one models g and h"""
    m, P, mp, Pp, v, S = [M.AA(x) for x in out]
    g = op == "__add__"
    both = (lambda a, b: bd(a, b)) if g else (lambda a, b: mm(a, b))
    for lab, i in D.positions():
        tk = at(D.t, i).get(())
        P0 = both(generic.P("g", 1), generic.P("h", 1))
        if isinstance(i, int) and i == 0:
            wm, wP = A.full((P0.shape[0],), 0), P0
        else:
            tp = at(D.t, prev(i)).get(())
            Am = both(generic.Amat("g", 1, tp, tk), generic.Amat("h", 1, tp, tk))
            wm = mm(Am, at(m, prev(i)))
            wP = plus(mm(Am, at(P, prev(i)), T(Am)), minus(P0, mm(Am, P0, T(Am))))
        w.eq(f"{lab}: predicted mean", at(mp, i), wm)
        w.eq(f"{lab}: predicted covariance", at(Pp, i), wP)
        h1, h2 = generic.H("g", 1, arr0(tk)), generic.H("h", 1, arr0(tk))
        H = A.concatenate([h1, h2], 1) if g else mm(h1, h2)
        update_relation(w, lab, wm, wP, H, at(D.y, i).get(()), at(D.r, i).get(()), at(m, i), at(P, i), at(v, i), at(S, i))
