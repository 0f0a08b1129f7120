"""Exposure data: an arbitrary number of exposures and an arbitrary interleaving of their boundaries.

The sort over the 2N exposure boundaries is not enumerated.  The k-th state of the sorted sequence is the
start or the end (split with the decision procedure) of an arbitrary observation o_k (an opaque index), so a
statement proved at state k holds for every interleaving.  What a sort guarantees (ascending primary key, ties
by the remaining keys and then by source position) is used through the sort keys only.
"""
from .api import *
from . import generic
from .solverlib import Data, at, dn, prev, nxt

HALF = Fraction(1, 2)


class Exposures(Data):
    def __init__(self, w, n=None, tag="", literal_inst=None):
        super().__init__(w, n, tag)
        c = w.c
        c.ordered.pop("t" + tag)            # observations come in any order
        self.texp = self.vec("texp" + tag, iv=Iv(0, N.INF, False, True))
        self.inst = self.vec("inst" + tag, integral=True, iv=Iv(0, N.INF, False, True))
        # element types: each may be an integer or a floating type of its own
        for a, nm in ((self.t, "t"), (self.texp, "texp"), (self.inst, "inst")):
            a.dt = frozenset({nm})
        self.X = (self.t, self.texp, self.inst)
        self.K = dn(mul(const(2), lift(self.n)))
        self.layout = None
        self.sorted = None
        self.forced = {}
        self.problems = []
        c.hooks["perm"] = self.perm
        c.hooks["nonzero"] = self.nonzero
        c.hooks["perm_inverse"] = self.perm_inverse
        self.inverse = {}
        self.literal = None

    # ---- spec side
    def boundary(self, o, s):
        t, dt = at(self.t, o).get(()), at(self.texp, o).get(())
        h = mul(const(HALF), dt)
        return add(t, h) if s else add(t, neg(h))

    def obs_index(self, i):
        """index of the observation the i-th state belongs to"""
        i = dn(i)
        k = ("obs", A.idx_key(i))
        if k in self.inverse:
            return lift(self.inverse[k])
        return self.bounded(k, self.n)

    def bounded(self, nm, n):
        """an opaque index 0 <= a < n"""
        c = ctx()
        a = atom(*nm, aff=True)
        if nm not in c.subst:
            c.subst[nm] = {nm + ("lo",): 1, None: 0}
            d = add(a, neg(lift(n)))
            c.fact(d, {-1})
            c.fact(mul(const(2), d), {-1})
            c.fact(add(mul(const(2), d), const(1)), {-1})
            c.fact(add(a, neg(mul(const(2), lift(n)))), {-1})
        return a

    def is_end(self, i):
        """whether the i-th state is an exposure end (decided: both are explored)"""
        i = dn(i)
        k = A.idx_key(i)
        if k in self.forced:
            return self.forced[k]
        d = atom("isend", k, integral=True, iv=Iv(0, 1, False, False))
        return ctx().decide(d, lambda s: s > 0)

    def event(self, i):
        """(observation, is an end) of the i-th state"""
        if isinstance(self.n, int):
            return self.literal[i]
        return self.obs_index(i), self.is_end(i)

    def time(self, i):
        return self.boundary(*self.event(i))

    # ---- hooks
    LAYOUTS = {
        "start/end interleaved": (lambda o, n: mul(const(2), o), lambda o, n: add(mul(const(2), o), const(1))),
        "end/start interleaved": (lambda o, n: add(mul(const(2), o), const(1)), lambda o, n: mul(const(2), o)),
        "starts then ends": (lambda o, n: o, lambda o, n: add(o, lift(n))),
        "ends then starts": (lambda o, n: add(o, lift(n)), lambda o, n: o),
    }

    def perm(self, keys, what):
        n = keys[0].shape[0]
        if A.dim_eq(n, self.K) and not isinstance(n, int):
            return self.boundaries_sort(keys)
        if A.dim_eq(n, self.n) and len(keys) == 1 and not isinstance(n, int):
            return self.obs_sort(keys[0])
        return None

    def boundaries_sort(self, keys):
        o, o2 = self.bounded(("obs", "layout"), self.n), self.bounded(("obs", "layout2"), self.n)

        def key(k, i):
            v = keys[k].get((dn(i),))
            return const(int(v)) if isinstance(v, bool) else A.num(v)
        found = near = None
        for lab, (fs, fe) in self.LAYOUTS.items():
            try:
                ks, ke = key(0, fs(o, self.n)), key(0, fe(o, self.n))
            except Unsupported:
                continue
            if ks.key == self.boundary(o, 0).key and ke.key == self.boundary(o, 1).key:
                found = lab
                break
            if near is None and belongs(ks, o) and belongs(ke, o):
                near = (lab, ks, ke)
        if found is None:
            if near is None:
                raise Unsupported("the states are sorted by a key that is not recognised")
            lab, ks, ke = near
            b0, b1 = self.boundary(o, 0), self.boundary(o, 1)
            bad = (ks, b0) if ks.key != b0.key else (ke, b1)
            self.problems.append(f"the states are sorted by {show(bad[0])[:120]} ; required {show(bad[1])[:120]}")
            found = lab
        self.layout = found
        fs, fe = self.LAYOUTS[found]
        # equal times: the end of an exposure must come before the start of another one
        verdict = None
        for k in range(1, len(keys)):
            d = add(key(k, fe(o, self.n)), neg(key(k, fs(o2, self.n))))
            sg = ctx().signs(d)
            if sg == {-1}:
                verdict = True
                break
            if sg == {0}:
                continue
            verdict = False
            break
        if verdict is None:
            verdict = found == "ends then starts"
        if not verdict:
            self.problems.append("at equal times an exposure start can be sorted before the end of another exposure")

        def src(i):
            oi, e = self.obs_index(i), self.is_end(i)
            return lift(dn((fe if e else fs)(oi, self.n)))
        self.sorted = A.Arr((self.K,), fn=src, tag="states")
        return self.sorted

    def force(self, i, e):
        self.forced[A.idx_key(dn(i))] = e
        return i

    def label_at(self, m, e):
        i = self.force(self.bounded(("probe", int(e)), self.K), e)
        v = m.get((i,))
        return v if isinstance(v, bool) else not ctx().decide(A.num(v), lambda s: s == 0)

    def position_of(self, e, j):
        """state index of the j-th start / end in state order"""
        return self.force(self.bounded(("end" if e else "start", A.idx_key(dn(j))), self.K), e)

    def nonzero(self, m, size, fill):
        if m.ndim != 1 or isinstance(m.shape[0], int) or not A.dim_eq(m.shape[0], self.K):
            return None
        ends, starts = self.label_at(m, True), self.label_at(m, False)
        if ends == starts:
            return None
        return (A.Arr((self.n,), fn=lambda j: self.position_of(ends, j), tag="ends" if ends else "starts"),)

    def obs_sort(self, key):
        """argsort of the observation numbers of the ends: the position of each observation among the ends"""
        j = self.bounded(("ordinal", "probe"), self.n)
        v = A.num(key.get((j,)))
        for e in (True, False):
            if v.key == self.obs_index(self.position_of(e, j)).key:
                def fn(n, e=e):
                    r = self.bounded(("rank", e, A.idx_key(dn(n))), self.n)
                    self.rank_of(e, r, n)
                    return r
                return A.Arr((self.n,), fn=fn, tag="rank")
        return None

    def rank_of(self, e, r, n):
        """the state at ordinal r is the one of observation n"""
        i = self.position_of(e, r)
        nm = ("obs", A.idx_key(dn(i)))
        self.inverse[nm] = n

    def perm_inverse(self, p, i):
        if A.dim_eq(p.shape[0], self.n) and p.ndim == 1:
            j = self.bounded(("ordinal", "probe"), self.n)
            v = A.num(p.get((j,)))
            for e in (True, False):
                if v.key == self.obs_index(self.position_of(e, j)).key:
                    r = self.bounded(("rank", e, A.idx_key(dn(i))), self.n)
                    self.rank_of(e, r, i)
                    return r
        raise Unsupported("scatter through an index array of data length")

    def read_literal(self, w, coords):
        """literal N: the order the program decided on (C06 checks that it is a sort)"""
        if not isinstance(self.n, int):
            return
        obs, st = M.AA(coords[2]), M.AA(coords[3])
        self.literal = [(A.dim_norm(A.num(obs.get((i,)))), A.num(st.get((i,))).aconst() == 1) for i in range(2 * self.n)]

    def positions(self, gen=1):
        if isinstance(self.n, int):
            return [(f"state {i}", i) for i in range(2 * self.n)]
        K = self.K
        return [("state 0", 0), ("state 1", 1), ("interior state", A.gen_index(K, gen)),
                ("state K-2", dn(add(K, const(-2)))), ("state K-1", dn(add(K, const(-1))))]

    def last(self, j):
        d = dn(add(lift(self.K), neg(lift(j))))
        return isinstance(d, int) and d == 1


def belongs(x, o):
    """every datum the value depends on is the one of observation o"""
    want = A.idx_key(o)
    for a in N.deps(x):
        if a[0] in ("t", "texp", "inst", "y", "r") and a[1] != want:
            return False
    return True


# ------------------------------------------------------------------ the exposure recursions
class Model:
    """what the recursion is made of: transition, noise, observation, reset, prior"""

    def __init__(self, tag, dim):
        self.tag, self.dim = tag + "!", dim

    def A(self, dt):
        return generic.Amat(self.tag, self.dim, const(0), dt)

    def Q(self, dt):
        return generic.Q(self.tag, self.dim, const(0), dt)

    def H(self, X):
        return generic.H(self.tag, self.dim, X)

    def R(self, inst):
        return generic.R(self.tag, self.dim, inst)

    def P(self):
        return generic.P(self.tag, self.dim)


def coords_of(D, o):
    return tuple(at(x, o).get(()) for x in D.X)


def filter_relation(w, D, mod, out, noise=True, positions=None):
    from .solverlib import update_relation
    m, P, mp, Pp = [M.AA(x) for x in out[:4]]
    for nm, a in (("filtered", m), ("filtered covariances", P), ("predicted", mp), ("predicted covariances", Pp)):
        w.eqb(f"number of states ({nm})", A.dim_eq(a.shape[0], D.K), True)
    if w.mis:
        return
    for lab, k in positions or D.positions():
        o, e = D.event(k)
        if isinstance(k, int) and k == 0:
            wm, wP = A.full((mod.dim,), 0), mod.P()
        else:
            dt = add(D.time(k), neg(D.time(prev(k))))
            Am = mod.A(dt)
            wm, wP = mm(Am, at(m, prev(k))), plus(mm(Am, at(P, prev(k)), T(Am)), mod.Q(dt))
        w.eq(f"{lab}: predicted mean", at(mp, k), wm)
        w.eq(f"{lab}: predicted covariance", at(Pp, k), wP)
        if e:
            update_relation(w, f"{lab} (exposure end)", wm, wP, mod.H(coords_of(D, o)), at(D.y, o).get(()),
                            at(D.r, o).get(()) if noise else const(0), at(m, k), at(P, k), None, None)
        else:
            Rm = mod.R(at(D.inst, o).get(()))
            w.eq(f"{lab} (exposure start): mean after the reset", at(m, k), mm(Rm, wm))
            w.eq(f"{lab} (exposure start): covariance after the reset", at(P, k), mm(Rm, wP, T(Rm)))


def innovation_relation(w, D, mod, out, vS, noise=True, which=None):
    """the j-th innovation is the one of the j-th exposure end"""
    mp, Pp = [M.AA(x) for x in out[2:4]]
    v, S = [M.AA(x) for x in vS]
    w.eqb("one innovation per observation", A.dim_eq(v.shape[0], D.n) and A.dim_eq(S.shape[0], D.n), True)
    if w.mis:
        return
    if isinstance(D.n, int):
        ends = [i for i in range(2 * D.n) if D.literal[i][1]]
        pairs = [(f"innovation {j}", j, i) for j, i in enumerate(ends)]
    else:
        pairs = [(lab, j, D.position_of(True, j)) for lab, j in  # the j-th end in state order
                 (("innovation 0", 0), ("interior innovation", A.gen_index(D.n, 3)), ("innovation N-1", dn(add(D.n, const(-1)))))]
    for lab, j, i in pairs if which is None else pairs[which:which + 1]:
        o, _ = D.event(i)
        Hm = mod.H(coords_of(D, o))
        r = at(D.r, o).get(()) if noise else const(0)
        w.eq(f"{lab}: innovation", at(v, j), minus(A.reshape(arr0(at(D.y, o)), (1,)), mm(Hm, at(mp, i))))
        w.eq(f"{lab}: innovation variance", at(S, j), plus(mm(Hm, at(Pp, i), T(Hm)), A.reshape(arr0(r), (1, 1))))


def smoother_relation(w, D, mod, out, sm, positions=None):
    m, P, mp, Pp = [M.AA(x) for x in out[:4]]
    ms, Ps = [M.AA(x) for x in sm]
    w.eqb("number of smoothed states", A.dim_eq(ms.shape[0], D.K) and A.dim_eq(Ps.shape[0], D.K), True)
    if w.mis:
        return
    for lab, k in positions or D.positions():
        if D.last(k):
            w.eq(f"{lab}: smoothed mean is the filtered one", at(ms, k), at(m, k))
            w.eq(f"{lab}: smoothed covariance is the filtered one", at(Ps, k), at(P, k))
            continue
        o, e = D.event(k)
        n = nxt(k)
        Am = mod.A(add(D.time(n), neg(D.time(k))))
        if e:
            mk, Pk, lab2 = at(m, k), at(P, k), f"{lab} (exposure end)"
        else:
            mk, Pk, lab2 = at(mp, k), at(Pp, k), f"{lab} (exposure start)"
            Am = mm(Am, mod.R(at(D.inst, o).get(())))
        G = mm(Pk, T(Am), A.linv(at(Pp, n)))
        w.eq(f"{lab2}: smoothed mean", at(ms, k), plus(mk, mm(G, minus(at(ms, n), mm(Am, mk)))))
        w.eq(f"{lab2}: smoothed covariance", at(Ps, k), plus(Pk, mm(G, minus(at(Ps, n), at(Pp, n)), T(G))))


def simultaneous_starts(w, solver, n_inst=2):
    """two exposures of different instruments that start at the same time, a real integrated model of an arbitrary base"""
    from .solverlib import SOLVERS
    D = Exposures(w, 2)
    D.texp = A.Arr((2,), fn=lambda i: atom("texp", A.idx_key(i), iv=Iv(Fraction(0), N.INF, True, True)))
    base = D.t
    shift = mul(const(HALF), add(at(D.texp, 1).get(()), neg(at(D.texp, 0).get(()))))
    D.t = A.Arr((2,), fn=lambda i: base.get((0,)) if i == 0 else add(base.get((0,)), shift))
    D.inst = A.Arr((2,), fn=lambda i: const(i if isinstance(i, int) else 0))
    D.X = (D.t, D.texp, D.inst)
    k = w.call("smolgp.kernels.integrated.IntegratedMatern32", scale=pos("ell"), sigma=pos("sig"), num_insts=n_inst)
    s = w.call(SOLVERS[solver], k, D.X, D.diag_noise())
    return w.meth(s, "condition", D.y)
