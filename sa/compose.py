"""Compositions used by the kernel-level properties."""
from . import catalog, generic
from .api import *


def leaves():
    return {s.name: s for s in catalog.leaf_specs()}


def b(name):
    s = leaves()[name]
    return lambda w, **kw: s.build(w, w.get(s.cls), **kw)


def g(tag, d=2, hmode="coord"):
    return lambda w: generic.kernel(w, tag, d, name="G" + tag, hmode=hmode)


def addk(x, y):
    return lambda w: w.it.binop("Add", x(w), y(w))


def mulk(x, y):
    return lambda w: w.it.binop("Mult", x(w), y(w))


def scl():
    return asarr(pos("scale_factor"))


def cases(tier="quick"):
    """(name, build, where) of compositions of arbitrary models"""
    B = "smolgp.kernels.base."
    out = [
        ("generic + generic", addk(g("a"), g("b", 1)), B + "Sum"),
        ("generic * generic", mulk(g("a"), g("b", 2)), B + "Product"),
        ("s * generic", lambda w: w.it.binop("Mult", scl(), g("a")(w)), B + "Scale"),
        ("generic * s", lambda w: w.it.binop("Mult", g("a")(w), scl()), B + "Scale"),
        ("(generic + generic) * generic", mulk(addk(g("a"), g("b", 1)), g("c", 2)), B + "Product"),
        ("generic * generic + s * generic",
         addk(mulk(g("a"), g("b", 1)), lambda w: w.it.binop("Mult", scl(), g("c")(w))), B + "Sum"),
        ("SHO * Matern32", mulk(b("SHO[underdamped]"), b("Matern32")), B + "Product"),
        ("Constant + Exp", addk(b("Constant"), b("Exp")), B + "Sum"),
        ("Constant * Matern52", mulk(b("Constant"), b("Matern52")), B + "Product"),
    ]
    return out
