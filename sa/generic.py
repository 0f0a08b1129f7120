"""Arbitrary state space models, as analysed source with opaque components.

The classes below subclass the *repository's* base classes, so everything they
inherit (observation_model, addition, evaluation, augmentation ...) is the
analysed program's own code; only the model's primitives (Pinf, H, eigenvalues)
are opaque value numbers.  The assume side of the contract:
A(t1,t2) = V exp(diag(l) (t2-t1)) V^-1, Q = Pinf - A Pinf A^T, H depends on the
coordinate in an arbitrary way, Pinf is an arbitrary symmetric matrix.
"""
import ast

import numpy as np

from . import arr as A
from . import interp as I
from . import models as M
from . import num as N
from .api import T, eye_, mat, matrix, minus, mm  # noqa
from .num import add, atom, const, exp, lift, mul, neg, uninterp

SRC = '''
import jax.numpy as jnp
import equinox as eqx
from smolgp.kernels.base import StateSpaceModel
from smolgp.kernels.integrated import IntegratedStateSpaceModel


class GenericKernel(StateSpaceModel):
    tag: str = eqx.field(static=True)
    d: int = eqx.field(static=True)
    hmode: str = eqx.field(static=True)

    def __init__(self, tag="g", d=2, name="Generic", hmode="coord", **kwargs):
        self.tag = tag
        self.d = d
        self.name = name
        self.hmode = hmode

    def design_matrix(self):
        return __F__(self.tag, self.d)

    def stationary_covariance(self):
        return __P__(self.tag, self.d)

    def observation_matrix(self, X):
        return __H__(self.tag, self.d, X, self.hmode)

    def noise(self):
        return __Qc__(self.tag, self.d)

    def noise_effect_matrix(self):
        return jnp.eye(self.d)

    def transition_matrix(self, X1, X2):
        return __A__(self.tag, self.d, self.coord_to_sortable(X1), self.coord_to_sortable(X2))


class GenericIntegrated(IntegratedStateSpaceModel):
    """an arbitrary model with integral states: resets, A and Q opaque"""
    tag: str = eqx.field(static=True)
    d: int = eqx.field(static=True)
    full: bool = eqx.field(static=True)

    def __init__(self, tag="gi", d=2, num_insts=1, name="GenericIntegrated", full=True, **kwargs):
        self.tag = tag
        self.d = d
        self.name = name
        self.num_insts = num_insts
        self.full = full
        self.base_model = GenericKernel(tag=tag, d=d, name=name + "_base", hmode="const")

    def design_matrix(self):
        return __F__(self.tag + "!", self.dimension)

    def stationary_covariance(self):
        return __P__(self.tag + "!", self.dimension)

    def observation_matrix(self, X):
        return __HI__(self.tag + "!", self.dimension, X)

    def noise(self):
        return __Qc__(self.tag + "!", self.dimension)

    def noise_effect_matrix(self):
        return jnp.eye(self.dimension)

    def transition_matrix(self, X1, X2):
        return __A__(self.tag + "!", self.dimension, self.coord_to_sortable(X1), self.coord_to_sortable(X2))

    def process_noise(self, X1, X2, force_numerical=False):
        return __Q__(self.tag + "!", self.dimension, self.coord_to_sortable(X1), self.coord_to_sortable(X2))

    def reset_matrix(self, instid=0):
        return __R__(self.tag + "!", self.dimension, instid)
'''


def lam(tag, d):
    return [atom("lam", tag, i) for i in range(d)]


def V(tag, d):
    return matrix("V_" + tag, d)


def P(tag, d):
    return matrix("P_" + tag, d, sym=True)


def F(tag, d):
    v = V(tag, d)
    return mm(v, diag(lam(tag, d)), A.linv(v))


def diag(xs):
    n = len(xs)
    return mat([[xs[i] if i == j else const(0) for j in range(n)] for i in range(n)])


def Amat(tag, d, t1, t2):
    dt = add(sc(t2), neg(sc(t1)))
    v = V(tag, d)
    return mm(v, diag([exp(mul(l, dt)) for l in lam(tag, d)]), A.linv(v))


def Q(tag, d, t1, t2):
    a = Amat(tag, d, t1, t2)
    p = P(tag, d) if not tag.endswith("!") else matrix("M_" + tag, d, sym=True)
    return minus(p, mm(a, p, T(a)))


def Qc(tag, d):
    f, p = F(tag, d), P(tag, d)
    return A.elementwise(lambda x, y: neg(add(x, y)), mm(f, p), mm(p, T(f)))


def sc(x):
    return A.num(A.scal(M.AA(x)))


def coordkey(X):
    if isinstance(X, (tuple, list)):
        return tuple(sc(x) for x in X)
    return (sc(X),)


def H(tag, d, X, hmode="coord", **kwargs):
    if hmode == "e1":
        return mat([[const(1 if j == 0 else 0) for j in range(d)]])
    k = () if hmode == "const" else coordkey(X)
    return mat([[uninterp(f"H_{tag}{j}", *k) if hmode != "const" else atom(f"H_{tag}", j) for j in range(d)]])


def R(tag, d, inst):
    k = sc(inst)
    return mat([[uninterp(f"R_{tag}{i}{j}", k) for j in range(d)] for i in range(d)])


def install(w):
    it = w.it
    if "sa_generic" in it.modules:
        return it.modules["sa_generic"]
    m = I.Module("sa_generic", "/verif/sa/generic.py", it)
    it.modules["sa_generic"] = m
    v = m.env.vars
    v["__name__"] = "sa_generic"

    def b(name, f):
        v[name] = I.Builtin(name, f)
    b("__F__", F)
    b("__P__", P)
    b("__H__", H)
    b("__HI__", lambda tag, d, X: H(tag, d, X))
    b("__Qc__", Qc)
    b("__A__", Amat)
    b("__Q__", Q)
    b("__R__", R)
    m.tree = ast.parse(SRC, "generic")
    m.loaded = True
    it.exec_block(m.tree.body, m.env)
    return m


def kernel(w, tag="g", d=2, name=None, hmode="coord", **kwargs):
    install(w)
    return w.call(w.it.modules["sa_generic"].env.vars["GenericKernel"], tag=tag, d=d, name=name or "Generic", hmode=hmode)


def integrated(w, tag="gi", d=2, num_insts=1, name=None):
    install(w)
    return w.call(w.it.modules["sa_generic"].env.vars["GenericIntegrated"], tag=tag, d=d, num_insts=num_insts,
                  name=name or "GenericIntegrated")


STUB = '''
from %s import %s


class Stub(%s):
    """the program's solver with the outputs of its filter and smoother left opaque (their own checks are C01-C08)"""

    def Kalman(self, y, return_v_S=%s):
        return __KALMAN__(y, return_v_S)

    def RTS(self, kalman_results):
        return __RTS__(kalman_results)
'''


def stub_solver(w, dotted, dim, K, n, extra=(), default=False):
    """class object: solver `dotted` whose filter / smoother return opaque arrays over K states and n innovations.
    returns (class, dict of the arrays)"""
    def vec(name, k):
        return A.Arr((k, dim), fn=lambda i, j: atom(name, A.idx_key(i), j))

    def sq(name, k):
        return A.Arr((k, dim, dim), fn=lambda i, j, l: atom(name, A.idx_key(i), *sorted((j, l))))
    o = {"mf": vec("mf", K), "Pf": sq("Pf", K), "mp": vec("mp", K), "Pp": sq("Pp", K), "ms": vec("ms", K), "Ps": sq("Ps", K)}
    o["v"] = A.Arr((n, 1), fn=lambda i, j: atom("v", A.idx_key(i)))
    o["S"] = A.Arr((n, 1, 1), fn=lambda i, j, l: atom("S", A.idx_key(i), positive=True))
    o["resid"] = []
    modname, _, cls = dotted.rpartition(".")
    m = I.Module("sa_stub", "/verif/sa/generic.py", w.it)
    v = m.env.vars
    v["__name__"] = "sa_stub"

    def kal(y, rv):
        o["resid"].append(y)
        r = (o["mf"], o["Pf"], o["mp"], o["Pp"])
        return r + ((o["v"], o["S"]) if rv is True else ())
    v["__KALMAN__"] = I.Builtin("__KALMAN__", kal)
    v["__RTS__"] = I.Builtin("__RTS__", lambda r: tuple(extra) + (o["ms"], o["Ps"]))
    m.tree = ast.parse(STUB % (modname, cls, cls, default), "stub")
    m.loaded = True
    w.it.exec_block(m.tree.body, m.env)
    return v["Stub"], o


def stub(w, sol, dotted, dim, K, n):
    """stub of one of the four solvers, matching the result layout of its smoother"""
    extra = (A.Arr((K, dim, dim), fn=lambda i, j, l: atom("E", A.idx_key(i), j, l)),) if sol == "ParallelStateSpaceSolver" else ()
    return stub_solver(w, dotted, dim, K, n, extra, default=sol.startswith("Parallel"))
