"""Models of the library primitives smolgp uses (jax, jax.numpy, equinox, python)."""
from __future__ import annotations
import copy
import itertools
import math
from fractions import Fraction
import numpy as np
from . import arr as A
from . import num as N
from .arr import (Arr, PyError, asarr, ctx, elementwise, from_np, lazy, num, dim_norm, idx_key, getitem)
from .num import (S, NeedSplit, Unsupported, add, atom, const, inv, lift, mul, neg, hrand, uninterp, show)


class PyType:
    def __init__(self, name, pred, ctor):
        self.name, self.pred, self.ctor = name, pred, ctor

    def sa_call(self, *a, **k):
        return self.ctor(*a, **k)

    def sa_getattr(self, n):
        if n == "__name__":
            return self.name
        if n == "fromkeys" and self.name == "dict":
            from .interp import Builtin
            return Builtin("fromkeys", lambda it, v=None: {k: v for k in it})
        from .interp import UnknownVal
        return UnknownVal(self.name + "." + n)

    def __repr__(self):
        return f"<type {self.name}>"


# ---------------------------------------------------------------- basic array ops
def INFTY():
    s = uninterp("inf")
    s._iv = N.Iv(10 ** 300, N.INF, True, True)
    return s


def fix(x):
    """python float inf/nan -> nodes"""
    if isinstance(x, float):
        if x == float("inf"):
            return INFTY()
        if x == float("-inf"):
            return neg(INFTY())
        if x != x:
            return uninterp("nan")
    if isinstance(x, (list, tuple)):
        return type(x)(fix(y) for y in x) if not hasattr(x, "_fields") else x
    return x


def AA(x):
    x = fix(x)
    if x is None:
        raise PyError("TypeError", "None is not a valid array")
    if isinstance(x, (str, dict)):
        raise PyError("TypeError", f"{x!r} is not a valid JAX array type")
    if hasattr(x, "sa_asarray"):
        return x.sa_asarray()
    return asarr(x)


def _fdiv(x, y):
    y = num(y)
    try:
        return mul(num(x), inv(y))
    except ZeroDivisionError:
        x = num(x)
        return uninterp("nan") if x.iszero else mul(x, INFTY())


def _floordiv(x, y):
    m = num(y).aconst()
    if m is None:
        return uninterp("floordiv", num(x), num(y))
    return lift(A.floordiv(num(x), m))


def _mod(x, y):
    m = num(y).aconst()
    if m is None:
        return uninterp("mod", num(x), num(y))
    return lift(A.mod(num(x), m))


def array_binop(op, a, b):
    a, b = AA(a), AA(b)
    if op == "MatMult":
        return A.matmul(a, b)
    if op in ("BitAnd", "BitOr", "BitXor"):
        if a.kind != "b" or b.kind != "b":
            raise Unsupported("bitwise operator on integers")
        f = {"BitAnd": lambda x, y: x and y, "BitOr": lambda x, y: x or y, "BitXor": lambda x, y: x != y}[op]
        return elementwise(f, a, b, kind="b")
    f = {"Add": lambda x, y: add(num(x), num(y)), "Sub": lambda x, y: add(num(x), neg(num(y))),
         "Mult": lambda x, y: mul(num(x), num(y)), "Div": _fdiv, "Pow": lambda x, y: N.power(num(x), num(y)),
         "FloorDiv": _floordiv, "Mod": _mod}.get(op)
    if f is None:
        raise Unsupported(f"array operator {op}")
    r = elementwise(f, a, b)
    if a.dt is not None and b.dt is not None:
        r.dt = a.dt | b.dt | ({"float"} if op == "Div" else set())
    return r


def cast(a, dt):
    """conversion to an element type that may be narrower than the values'"""
    if dt is None or a.dt is None or a.dt <= dt or "float" in dt:
        return a
    r = elementwise(lambda x: uninterp("cast_to_" + "_".join(sorted(dt)), num(x)), a)
    r.dt = dt
    return r


def typed(a, dt):
    """a new array of the given type"""
    if isinstance(dt, DType) and dt.dt is not None and a.dt is None:
        a.dt = dt.dt
    return a


INT = frozenset()
FLOAT = frozenset({"float"})


CMP = {"Lt": lambda s: s < 0, "LtE": lambda s: s <= 0, "Gt": lambda s: s > 0, "GtE": lambda s: s >= 0,
       "Eq": lambda s: s == 0, "NotEq": lambda s: s != 0}


def array_compare(op, a, b):
    a, b = AA(a), AA(b)
    p = CMP[op]

    def f(x, y):
        if isinstance(x, bool) and isinstance(y, bool):
            return {"Eq": x == y, "NotEq": x != y}.get(op, p((x > y) - (x < y)))
        return ctx().decide(add(num(x), neg(num(y))), p)
    return elementwise(f, a, b, kind="b")


def u1(fn, name=None):
    def g(x, *a, **k):
        return elementwise(lambda e: fn(num(e)), AA(x))
    return g


def _abs(x):
    if x.op == "cx":
        return N.sqrt(add(mul(x.args[0], x.args[0]), mul(x.args[1], x.args[1])))
    h = ctx().hooks.get("nonneg")
    sg = ctx().signs(x)
    if sg <= {0, 1} or h and h(x):
        return x
    if sg <= {0, -1}:
        return neg(x)
    if x.p[0] != 0:
        # the operand's sign is unknown: |x| = sqrt(x^2), the square one of +-x
        try:
            r = N.sqrt(N.ipow(x, 2)) if x.op != "pow" else N.sqrt(mul(x, x))
        except N.Resample:
            raise NeedSplit(x, sg, show(x))
        y = S(r.p, r.q1, r.q2, "abs", (x,), iv=N.Iv(0, N.INF, 0 not in sg, True))
        return y
    ks = sorted([repr(x.key), repr(neg(x).key)])
    a, b, c = hrand("fn", "abs", tuple(ks))
    return S((a * a % N.P,), b, c, "abs", (x,), iv=N.Iv(0, N.INF, 0 not in sg, True))


def _maxi(x, y):
    return x if ctx().decide(add(x, neg(y)), lambda s: s >= 0) else y


def _mini(x, y):
    return x if ctx().decide(add(x, neg(y)), lambda s: s <= 0) else y


def _sinh(x):
    e = N.exp(x)
    return mul(const(Fraction(1, 2)), add(e, neg(inv(e))))


def _cosh(x):
    e = N.exp(x)
    return mul(const(Fraction(1, 2)), add(e, inv(e)))


def derivative(what):
    """an operation no derivative passes through"""
    f = ctx().hooks.get("derivative")
    if f is not None:
        f(what)


def static(x, what):
    """x has to be known while the program runs as Python"""
    f = ctx().hooks.get("concrete")
    if f is not None:
        f(x, what)


def dims(sh):
    static(sh, "an array size")
    if isinstance(sh, (tuple, list)):
        for x in sh:
            static(x, "an array size")
    if isinstance(sh, (int, S, Fraction)):
        return (dim_norm(int(sh)) if isinstance(sh, Fraction) else dim_norm(sh),)
    if isinstance(sh, Arr):
        if sh.ndim == 0:
            return (dim_norm(sh.get(())),)
        return tuple(dim_norm(x) for x in sh.force())
    out = []
    for x in sh:
        if isinstance(x, Arr):
            x = x.get(())
        if isinstance(x, Fraction):
            if x.denominator != 1:
                raise PyError("TypeError", "Shapes must be 1D sequences of integers")
            x = int(x)
        if not isinstance(x, (int, S, np.integer)):
            raise PyError("TypeError", f"Shapes must be integers, got {x!r}")
        out.append(dim_norm(x))
    return tuple(out)


def isarr(x):
    return isinstance(x, (Arr, S))


# ---------------------------------------------------------------- pytrees
def tree_flatten(x):
    from .interp import Inst
    leaves = []

    def rec(v):
        if isinstance(v, tuple):
            return ("t", [rec(e) for e in v])
        if isinstance(v, list):
            return ("l", [rec(e) for e in v])
        if isinstance(v, dict):
            return ("d", [(k, rec(e)) for k, e in v.items()])
        if v is None:
            return ("n",)
        if isinstance(v, Inst):
            st = {}
            specs = v.cls.mro[0]
            return ("i", v.cls, [(k, rec(e) if not _static(v.cls, k) else ("s", e)) for k, e in v.fields.items()])
        leaves.append(v)
        return ("x",)
    td = rec(x)
    return leaves, td


def _static(cls, k):
    from .interp import FieldSpec
    for c in cls.mro:
        if k in c.ns and isinstance(c.ns[k], FieldSpec):
            return c.ns[k].static
    return False


def tree_unflatten(td, leaves):
    from .interp import Inst
    it = iter(leaves)

    def rec(t):
        if t[0] == "t":
            return tuple(rec(e) for e in t[1])
        if t[0] == "l":
            return [rec(e) for e in t[1]]
        if t[0] == "d":
            return {k: rec(e) for k, e in t[1]}
        if t[0] == "n":
            return None
        if t[0] == "s":
            return t[1]
        if t[0] == "i":
            o = Inst(t[1])
            for k, e in t[2]:
                o.fields[k] = rec(e)
            return o
        return next(it)
    return rec(td)


def td_key(td):
    if td[0] in ("t", "l"):
        return (td[0], tuple(td_key(e) for e in td[1]))
    if td[0] == "d":
        return ("d", tuple((k, td_key(e)) for k, e in td[1]))
    if td[0] == "i":
        return ("i", id(td[1]), tuple((k, td_key(e)) for k, e in td[2]))
    if td[0] == "s":
        return ("s",)
    return td


def flatten_up_to(td, x):
    """the parts of x at the leaves of another structure; jax raises if x does not have that structure"""
    from .interp import Inst
    out = []

    def rec(t, v):
        if t[0] == "x":
            out.append(v)
        elif t[0] in ("t", "l"):
            if not isinstance(v, tuple if t[0] == "t" else list) or len(v) != len(t[1]):
                raise PyError("ValueError", "the trees have different structures")
            for a, b in zip(t[1], v):
                rec(a, b)
        elif t[0] == "d":
            if not isinstance(v, dict) or set(v) != {k for k, _ in t[1]}:
                raise PyError("ValueError", "the trees have different keys")
            for k, a in t[1]:
                rec(a, v[k])
        elif t[0] == "n":
            if v is not None:
                raise PyError("ValueError", "expected None")
        elif t[0] == "i":
            if not isinstance(v, Inst) or v.cls is not t[1]:
                raise PyError("ValueError", "the trees have different node types")
            for k, a in t[2]:
                rec(a, v.fields[k])
    rec(td, x)
    return out


def tree_map(interp, f, *trees, is_leaf=None):
    if is_leaf is not None:
        raise Unsupported("tree_map is_leaf")
    l0, td = tree_flatten(trees[0])
    ls = [l0] + [flatten_up_to(td, t) for t in trees[1:]]
    return tree_unflatten(td, [interp.call(f, list(z), {}) for z in zip(*ls)])


# ---------------------------------------------------------------- vmap / scan
class VFunc:
    def __init__(self, interp, f, in_axes, out_axes):
        self.interp, self.f, self.in_axes, self.out_axes = interp, f, in_axes, out_axes

    def sa_getattr(self, n):
        from .interp import UnknownVal
        return UnknownVal("vmap." + n)

    def sa_call(self, *args, **kw):
        f = self.interp.snapshot(self.f)
        axes = self.in_axes
        if isinstance(axes, list):
            axes = tuple(axes)
        if not isinstance(axes, tuple):
            axes = (axes,) * len(args)
        if len(axes) != len(args):
            raise PyError("ValueError", "vmap in_axes must match the number of positional arguments")
        flat = []
        n = None
        allargs = [(a, ax) for a, ax in zip(args, axes)] + [(v, 0) for v in kw.values()]
        for a, ax in allargs:
            leaves, td = tree_flatten(a)
            if isinstance(ax, (tuple, list, dict)) or (ax is None and False):
                axl = []

                def walk(t, x):
                    if isinstance(t, (tuple, list)):
                        xs = x if isinstance(x, (tuple, list)) else [x] * len(t)
                        for p, q in zip(t, xs):
                            walk(p, q)
                    elif isinstance(t, dict):
                        for k in t:
                            walk(t[k], x[k] if isinstance(x, dict) else x)
                    elif t is None:
                        pass
                    else:
                        sub, _ = tree_flatten(t)
                        axl.extend([x] * len(sub))
                walk(a, ax)
            else:
                axl = [ax] * len(leaves)
            L = []
            for v, x in zip(leaves, axl):
                if x is None:
                    L.append((v, None))
                else:
                    v = AA(v)
                    if v.ndim == 0:
                        raise PyError("ValueError", "vmap was requested to map its argument along axis 0, "
                                      "which implies that its rank should be at least 1, but is only 0")
                    x = x % v.ndim
                    if n is None:
                        n = v.shape[x]
                    elif not A.dim_eq(n, v.shape[x]):
                        raise PyError("ValueError", f"vmap got inconsistent sizes for array axes to be mapped: {n} {v.shape[x]}")
                    L.append((v, x))
            flat.append((L, td))
        if n is None:
            raise PyError("ValueError", "vmap must have at least one non-None value in in_axes")
        kws = list(kw)

        def at(i):
            with A.within(n):
                return body(i)

        def body(i):
            vals = []
            for L, td in flat:
                lv = [v if x is None else getitem(v, tuple([slice(None)] * x + [_ix(i)])) for v, x in L]
                vals.append(tree_unflatten(td, lv))
            na = len(args)
            return self.interp.staged(f, vals[:na], dict(zip(kws, vals[na:])))
        return lazy_map(self.interp, n, at, self.out_axes)


def _ix(i):
    return i


def lazy_map(interp, n, at, out_axes=0):
    """array pytree whose i-th slice is at(i)"""
    n = dim_norm(n)
    cache = {}

    def res(i):
        k = (ctx().token, idx_key(i))
        if (None, k[1]) in cache:
            return cache[(None, k[1])]
        if k in cache:
            return cache[k]
        v = tree_flatten(at(i))
        cache[k] = v
        return v
    if isinstance(n, int):
        if n == 0:
            # nothing is mapped: the function is only traced for its output shapes
            c = ctx()
            c.probe += 1
            c.hooks["empty"] = c.hooks.get("empty", 0) + 1
            try:
                l0, td = tree_flatten(at(0))
            finally:
                c.probe -= 1
                c.hooks["empty"] -= 1
            return tree_unflatten(td, [lazy((0,) + tuple(AA(x).shape), _nothing) for x in l0])
        rs = [res(i) for i in range(n)]
        l0, td = rs[0]
        out = [A.stack([AA(r[0][j]) for r in rs], 0) for j in range(len(l0))]
        for j, o in enumerate(out):
            o.dt = AA(l0[j]).dt
    else:
        c = ctx()
        c.probe += 1
        try:
            l0, td = at_flat = tree_flatten(at(A.gen_index(n, 9)))
        finally:
            c.probe -= 1
        out = []
        for j, l in enumerate(l0):
            l = AA(l)

            def fn(*idx, j=j):
                return AA(res(idx[0])[0][j]).get(tuple(idx[1:]))
            out.append(Arr((n,) + l.shape, fn=fn, kind=l.kind))
            out[-1].dt = l.dt
    if out_axes not in (0, None):
        if isinstance(out_axes, int):
            out = [A.transpose(o, _moveaxes(o.ndim, 0, out_axes)) for o in out]
        else:
            oa = list(out_axes)
            if len(oa) == len(out):
                out = [o if x == 0 else A.transpose(o, _moveaxes(o.ndim, 0, x)) for o, x in zip(out, oa)]
            else:
                raise Unsupported("vmap out_axes")
    return tree_unflatten(td, out)


def _moveaxes(nd, src, dst):
    src, dst = src % nd, dst % nd
    o = [i for i in range(nd) if i != src]
    o.insert(dst, src)
    return o


class Deepen(Exception):
    def __init__(self, key, amount):
        super().__init__("deepen")
        self.key, self.amount = key, amount


DEPTHS = {}


def leaf_base(ident, sym, c0, dk):
    """position at which a recurrence is cut: shared by all recurrences with the same body and start"""
    tbl = ctx().hooks.setdefault("scan_base", {})
    k = (ident, sym)
    if k not in tbl:
        tbl[k] = c0 - DEPTHS.get(dk, 0)
    if c0 < tbl[k]:
        raise Deepen(dk, DEPTHS.get(dk, 0) + tbl[k] - c0)
    return tbl[k]


def is_sym_at(a):
    d = a.force()
    n = d.shape[0]
    return all(lift(num(d[i, j])).key == lift(num(d[j, i])).key for i in range(n) for j in range(i))


class Scan:
    """lax.scan over a symbolic number of iterations, as a recurrence"""

    def __init__(self, interp, f, init, xs, n, reverse, site=""):
        self.interp, self.f, self.n, self.reverse = interp, interp.snapshot(f), dim_norm(n), reverse
        A.nested(self.n)
        self.init_l, self.ctd = tree_flatten(init)
        self.init_l = [AA(x) for x in self.init_l]
        self.xs_l, self.xtd = tree_flatten(xs)
        self.cache = {}
        self.carries = {(None, 0): self.init_l}
        self.sym = set()
        self.closed = {}
        self.site = site
        self.analyse()

    def xs_at(self, j):
        return tree_unflatten(self.xtd, [getitem(AA(x), j) for x in self.xs_l])

    def body(self, carry_l, i):
        j = dim_norm(add(add(lift(self.n), const(-1)), neg(lift(i)))) if self.reverse else i
        with A.within(self.n):
            r = self.interp.staged(self.f, [tree_unflatten(self.ctd, A.varying(carry_l)), self.xs_at(j)], {})
        if not isinstance(r, (tuple, list)) or len(r) != 2:
            raise PyError("TypeError", "scan body function must return a pair")
        cl, ctd = tree_flatten(r[0])
        cl = [AA(x) for x in cl]
        if td_key(ctd) != td_key(self.ctd) or len(cl) != len(self.init_l):
            raise PyError("TypeError", "scan body function carry input and carry output must have the same pytree structure")
        for x, y in zip(cl, self.init_l):
            if len(x.shape) != len(y.shape) or not all(A.dim_eq(p, q) for p, q in zip(x.shape, y.shape)):
                raise PyError("TypeError", f"scan carry type changed: {y.shape} -> {x.shape}")
        ol, otd = tree_flatten(r[1])
        return cl, [AA(x) for x in ol], otd

    def leaf(self, tag, i):
        out = []
        for k, a in enumerate(self.init_l):
            if k in self.closed:
                out.append(asarr(add(num(a.get(())), mul(const(self.closed[k]), lift(i)))))
                continue
            if not a.concrete:
                raise Unsupported("scan carry with a data-length axis")

            def fn(*idx, k=k):
                if k in self.sym:
                    idx = tuple(sorted(idx))
                return atom("carry", tag, k, idx_key(i), *idx)
            out.append(lazy(a.shape, fn, a.kind))
        return out

    def analyse(self):
        """infer inductive facts about the carry (symmetry, counters), name the recurrence"""
        c = ctx()
        io = A.gen_index(self.n, 7)
        cand = {k for k, a in enumerate(self.init_l) if a.concrete and a.ndim == 2 and a.shape[0] == a.shape[1]
                and a.shape[0] > 1}

        def probing(pol, f):
            c.probe += 1
            old = c.hooks.get("probe_last")
            c.hooks["probe_last"] = pol == 2
            try:
                return f()
            finally:
                c.probe -= 1
                c.hooks["probe_last"] = old

        def values(a):
            return tuple(lift(num(x)).key for x in a.force().flat) if a.concrete else ("nonconcrete",)
        for pol in (1, 2):
            cand = probing(pol, lambda: {k for k in cand if is_sym_at(self.init_l[k])})
        isig = [probing(pol, lambda: [values(a) for a in self.init_l]) for pol in (1, 2)]
        self.sym = cand
        while True:
            outs = []
            for pol in (1, 2):
                c.probe += 1
                old = c.hooks.get("probe_last")
                c.hooks["probe_last"] = pol == 2
                try:
                    outs.append(self.body(self.leaf("probe", io), io))
                finally:
                    c.probe -= 1
                    c.hooks["probe_last"] = old
            bad = {k for k in self.sym for o in outs if not is_sym_at(o[0][k])}
            newc = {}
            for k, a in enumerate(self.init_l):
                if k in self.closed or a.ndim or a.kind == "b":
                    continue
                i0 = probing(1, lambda: num(a.get(())))
                if i0.aff is None:
                    continue
                at = self.leaf("probe", io)[k].get(())
                ds = [add(num(o[0][k].get(())), neg(at)) for o in outs]
                for st in range(-2, 3):
                    if st and all(d.key == const(st).key for d in ds):
                        newc[k] = st
            if not bad and not newc:
                break
            self.sym -= bad
            self.closed.update(newc)
        cl, ol, otd = outs[0]
        sig = []
        for a in cl + ol:
            sig.append(values(a))
        sig.append(tuple(tuple(x) for x in isig))
        self.id = hrand("scan", self.site, lift(self.n).key, self.reverse, tuple(sig))[0] % (1 << 60)
        self.otd = otd
        self.oshapes = [(a.shape, a.kind) for a in ol]

    def carry(self, i):
        i = dim_norm(i)
        k = (ctx().token, idx_key(i))
        if (None, k[1]) in self.carries:
            return self.carries[(None, k[1])]
        if k in self.carries:
            return self.carries[k]
        if isinstance(i, int):
            if i < 0:
                raise Unsupported("negative scan iteration")
            if i > 64:
                raise Unsupported("large literal scan iteration")
            prev = self.carry(i - 1)
            v = self.step(i - 1)[0]
        else:
            if i.aff is None:
                raise Unsupported("scan position is not an affine index: " + show(i))
            sym = tuple(sorted((repr(a), b) for a, b in i.aff.items() if a is not None and b))
            c0 = i.aff.get(None, 0)
            dk = (self.site, sym)
            base = leaf_base(self.id, sym, c0, dk)
            if c0 == base:
                v = self.leaf(self.id, i)
            else:
                v = self.step(dim_norm(add(i, const(-1))))[0]
        self.carries[k] = v
        return v

    def step(self, i):
        k = (ctx().token, idx_key(i))
        if (None, k[1]) in self.cache:
            return self.cache[(None, k[1])]
        if k in self.cache:
            return self.cache[k]
        v = self.body(self.carry(i), i)
        self.cache[k] = v
        return v

    def outputs(self):
        outs = []
        for j, (sh, kd) in enumerate(self.oshapes):
            def fn(*idx, j=j):
                i = idx[0]
                if self.reverse:
                    i = dim_norm(add(add(lift(self.n), const(-1)), neg(lift(i))))
                return self.step(i)[1][j].get(tuple(idx[1:]))
            outs.append(Arr((self.n,) + tuple(sh), fn=fn, kind=kd))
        return tree_unflatten(self.otd, outs)

    def final(self):
        def mk(k):
            a = self.init_l[k]
            return Arr(a.shape, fn=lambda *idx: self.carry(self.n)[k].get(tuple(idx)), kind=a.kind)
        return tree_unflatten(self.ctd, [mk(k) for k in range(len(self.init_l))])


def do_scan(interp, f, init, xs=None, length=None, reverse=False, unroll=1, _site=None, **kw):
    n = None
    for x in tree_flatten(xs)[0]:
        x = AA(x)
        if x.ndim == 0:
            raise PyError("ValueError", "scan got value with no leading axis to scan over")
        if n is None:
            n = x.shape[0]
        elif not A.dim_eq(n, x.shape[0]):
            raise PyError("ValueError", "scan got values with different leading axis sizes")
    if n is None:
        n = dims(length)[0]
    site = site_of(f, _site)
    ctx().log.append(("scan", site))
    if isinstance(n, int):
        return unrolled_scan(interp, f, init, xs, n, reverse)
    sc = Scan(interp, f, init, xs, n, bool(reverse), site)
    return (sc.final(), sc.outputs())


def unrolled_scan(interp, f, init, xs, n, reverse):
    outs = [None] * n
    carry = init
    xl, xtd = tree_flatten(xs)
    td = None
    for i in (range(n - 1, -1, -1) if reverse else range(n)):
        carry, o = interp.staged(f, [carry, tree_unflatten(xtd, [getitem(AA(x), i) for x in xl])], {})
        ol, td = tree_flatten(o)
        outs[i] = [AA(v) for v in ol]
    if n == 0:
        # no iteration: the body is only traced for its output shapes
        def el(x):
            x = AA(x)
            return lazy(x.shape[1:], lambda *idx: x.fn(0, *idx) if x.fn is not None else atom("empty", *idx))
        c = ctx()
        c.probe += 1
        try:
            _, o = interp.staged(f, [carry, tree_unflatten(xtd, [el(x) for x in xl])], {})
        finally:
            c.probe -= 1
        ol, td = tree_flatten(o)
        return (carry, tree_unflatten(td, [lazy((0,) + tuple(AA(x).shape), _nothing) for x in ol]))
    return (carry, tree_unflatten(td, [A.stack([o[j] for o in outs], 0) for j in range(len(outs[0]))]))


def _nothing(*idx):
    if ctx().hooks.get("empty"):
        return atom("empty", *[idx_key(i) for i in idx])
    raise PyError("IndexError", "reading an empty array")


def site_of(f, _site=None):
    from .interp import Func, BoundMethod
    g = f
    while isinstance(g, (BoundMethod, VFunc)):
        g = g.func if isinstance(g, BoundMethod) else g.f
    if isinstance(g, Func):
        return f"{g.module.name}.{g.qualname}"
    if hasattr(g, "func") and not isinstance(g, Func):
        return site_of(g.func)
    return repr(g)


class AScan:
    """associative_scan as the recurrence res(k) = op(res(k-1), e(k))"""

    def __init__(self, interp, f, elems, reverse, axis=0):
        self.interp, self.f, self.reverse = interp, interp.snapshot(f) if not isinstance(f, VFunc) else f, reverse
        if axis != 0:
            raise Unsupported("associative_scan axis")
        self.el, self.td = tree_flatten(elems)
        self.el = [AA(x) for x in self.el]
        self.n = self.el[0].shape[0]
        A.nested(self.n)
        for x in self.el[1:]:
            if not A.dim_eq(x.shape[0], self.n):
                raise PyError("ValueError", "associative_scan: array inputs must have the same leading dimension")
        self.cache = {}
        self.sym = set()
        self.site = site_of(f)
        self.shapes = [x.shape[1:] for x in self.el]
        self.analyse()

    def op(self, a, b):
        with A.within(self.n):
            la = [A.expand(x, 0) for x in A.varying(a)]
            lb = [A.expand(x, 0) for x in A.varying(b)]
            r = self.interp.staged(self.f, [tree_unflatten(self.td, la), tree_unflatten(self.td, lb)], {})
        rl, rtd = tree_flatten(r)
        if td_key(rtd) != td_key(self.td):
            raise PyError("TypeError", "associative_scan: operator changes the structure")
        rl = [AA(x) for x in rl]
        for x, s in zip(rl, self.shapes):
            if x.shape[1:] != s and not (len(x.shape) - 1 == len(s) and all(A.dim_eq(p, q) for p, q in zip(x.shape[1:], s))):
                raise PyError("TypeError", f"associative_scan: operator changes shapes {s} -> {x.shape[1:]}")
        return [getitem(x, 0) for x in rl]

    def elem(self, j):
        return [getitem(x, j) for x in self.el]

    def leaf(self, tag, i):
        out = []
        for k, s in enumerate(self.shapes):
            def fn(*idx, k=k):
                if k in self.sym:
                    idx = tuple(sorted(idx))
                return atom("prefix", tag, k, idx_key(i), *idx)
            out.append(lazy(s, fn))
        return out

    def analyse(self):
        c = ctx()
        io = A.gen_index(self.n, 7)
        cand = {k for k, s in enumerate(self.shapes) if len(s) == 2 and s[0] == s[1] and isinstance(s[0], int) and s[0] > 1}
        c.probe += 1
        try:
            for e in (self.elem(io), self.elem(0), self.elem(dim_norm(add(lift(self.n), const(-1))))):
                cand = {k for k in cand if is_sym_at(e[k])}
            self.sym = cand
            while True:
                r = self.op(self.leaf("probeL", io), self.leaf("probeR", io))
                bad = {k for k in self.sym if not is_sym_at(r[k])}
                if not bad:
                    break
                self.sym = self.sym - bad
            # associativity of the operator on elements with the inferred symmetries
            x, y, z = self.leaf("assoc1", io), self.leaf("assoc2", io), self.leaf("assoc3", io)
            l, rr = self.op(self.op(x, y), z), self.op(x, self.op(y, z))
            self.assoc_ok = all(lift(num(p)).key == lift(num(q)).key
                                for s, t in zip(l, rr) for p, q in zip(s.force().flat, t.force().flat))
            sig = tuple(tuple(lift(num(v)).key for v in q.force().flat) for q in r + self.elem(io) + self.elem(0))
        finally:
            c.probe -= 1
        c.log.append(("assoc", self.site, self.assoc_ok))
        self.id = hrand("ascan", self.site, lift(self.n).key, self.reverse, sig)[0] % (1 << 60)

    def res(self, j):
        j = dim_norm(j)
        k = (ctx().token, idx_key(j))
        if (None, k[1]) in self.cache:
            return self.cache[(None, k[1])]
        if k in self.cache:
            return self.cache[k]
        # distance from the start of the recurrence
        i = dim_norm(add(add(lift(self.n), const(-1)), neg(lift(j)))) if self.reverse else j
        if isinstance(i, int):
            if i < 0 or i > 64:
                raise Unsupported("associative_scan position")
            if i == 0:
                v = self.elem(j)
            else:
                v = self.op(self.res(self.prev(j)), self.elem(j))
        else:
            if i.aff is None:
                raise Unsupported("scan position is not an affine index: " + show(i))
            sym = tuple(sorted((repr(a), b) for a, b in i.aff.items() if a is not None and b))
            c0 = i.aff.get(None, 0)
            dk = (self.site, sym)
            base = leaf_base(self.id, sym, c0, dk)
            if c0 == base:
                v = self.leaf(self.id, j)
            else:
                v = self.op(self.res(self.prev(j)), self.elem(j))
        self.cache[k] = v
        return v

    def prev(self, j):
        return dim_norm(add(lift(j), const(1 if self.reverse else -1)))

    def outputs(self):
        outs = []
        for k, s in enumerate(self.shapes):
            outs.append(Arr((self.n,) + tuple(s), fn=lambda *idx, k=k: self.res(idx[0])[k].get(tuple(idx[1:]))))
        return tree_unflatten(self.td, outs)


def do_ascan(interp, f, elems, reverse=False, axis=0):
    ctx().log.append(("associative_scan", site_of(f)))
    l, td = tree_flatten(elems)
    n = dim_norm(AA(l[0]).shape[0])
    sc_f = f
    if isinstance(n, int):
        el = [AA(x) for x in l]
        order = range(n - 1, -1, -1) if reverse else range(n)
        res = [None] * n
        prev = None
        for j in order:
            e = [A.expand(getitem(x, j), 0) for x in el]
            if prev is None:
                prev = e
            else:
                r, _ = tree_flatten(interp.staged(f, [tree_unflatten(td, prev), tree_unflatten(td, e)], {}))
                prev = [AA(x) for x in r]
            res[j] = [getitem(x, 0) for x in prev]
        return tree_unflatten(td, [A.stack([r[k] for r in res], 0) for k in range(len(el))])
    return AScan(interp, f, elems, bool(reverse), axis).outputs()


# ---------------------------------------------------------------- array attributes
class AtProxy:
    def __init__(self, a):
        self.a = a

    def sa_getitem(self, k):
        return AtIdx(self.a, k)


class AtIdx:
    def __init__(self, a, k):
        self.a, self.k = a, k

    def sa_getattr(self, n):
        from .interp import Builtin
        if n in ("set", "add", "multiply"):
            def upd(v, **kw):
                v = AA(v)
                r = A.at_update(self.a, self.k, cast(v, self.a.dt), n)
                r.dt = self.a.dt
                return r
            return Builtin("at." + n, upd)
        if n == "get":
            return Builtin("at.get", lambda **kw: getitem(self.a, self.k))
        raise Unsupported("at[]." + n)


def _interp():
    from . import interp
    return interp


def array_attr(interp, a, name):
    r = _array_attr(interp, a, name)
    if a.host is not None:                  # numpy: views alias, copies do not
        B = _interp().Builtin
        if isinstance(r, Arr):
            return A.alias(r, a.host)
        if name in ("sort", "fill", "put", "itemset", "resize", "partition") and a.host:
            interp.effects.append(f".{name}() on {a.host} given by the caller")
        if isinstance(r, B) and name in ("reshape", "ravel", "squeeze", "transpose", "swapaxes", "view"):
            g = B(r.name, lambda *x, **k: A.alias(r.fn(*x, **k), a.host))
            g.view = True
            return g
        if isinstance(r, B) and name in ("copy", "astype", "flatten"):
            g = B(r.name, r.fn)
            g.host = True
            return g
    return r


def _array_attr(interp, a, name):
    from .interp import Builtin
    B = Builtin
    if name == "shape":
        return tuple(a.shape)
    if name == "ndim":
        return a.ndim
    if name == "size":
        return A.size_of(a.shape)
    if name in ("T", "mT"):
        if name == "mT" or a.ndim < 2:
            if a.ndim < 2:
                return a
            ax = list(range(a.ndim))
            ax[-1], ax[-2] = ax[-2], ax[-1]
            return A.transpose(a, ax)
        return A.transpose(a)
    if name == "at":
        return AtProxy(a)
    if name == "dtype":
        return DType("bool" if a.kind == "b" else "float", a.dt)
    if name == "astype":
        return B("astype", lambda dt=None, **k: elementwise(num, a) if a.kind == "b" and not _is_bool_dtype(dt) else cast(a, dtype_of(dt)))
    if name == "real":
        return elementwise(lambda x: N.real(num(x)), a)
    if name == "imag":
        return elementwise(lambda x: N.imag(num(x)), a)
    if name in ("conj", "conjugate"):
        return B(name, lambda: elementwise(lambda x: N.conj(num(x)), a))
    if name in ("copy", "block_until_ready"):
        return B(name, lambda *x, **k: a)
    if name in ("item", "tolist", "__float__", "__int__", "__bool__", "__index__"):
        interp.concrete(a, f"a Python value (.{name}())")
    if name == "item":
        return B(name, lambda *x: a if a.ndim == 0 else A.reshape(a, ()))
    if name == "tolist":
        return B(name, lambda: [getitem(a, i) for i in range(a.shape[0])])
    tbl = interp.libs["jax.numpy"].table
    if name in ("squeeze", "sum", "mean", "reshape", "ravel", "flatten", "transpose", "repeat", "dot", "diagonal",
                "prod", "max", "min", "all", "any", "trace", "argsort", "sort", "cumsum", "clip", "take", "std", "var",
                "argmin", "argmax", "round", "nonzero", "swapaxes"):
        nm = {"flatten": "ravel"}.get(name, name)
        if name == "reshape":
            return B(name, lambda *sh, **k: A.reshape(a, dims(sh[0] if len(sh) == 1 and isinstance(sh[0], (tuple, list)) else sh)))
        if name == "transpose":
            return B(name, lambda *ax: A.transpose(a, (ax[0] if len(ax) == 1 and isinstance(ax[0], (tuple, list)) else ax) or None))
        f = tbl.get(nm)
        if f is not None:
            return B(name, lambda *x, **k: f.fn(a, *x, **k))
    if name == "to_dense" or name.startswith("__"):
        raise PyError("AttributeError", f"array has no attribute {name}")
    if name in ARRAY_ATTRS_KNOWN:
        raise Unsupported("array attribute " + name)
    raise PyError("AttributeError", f"array has no attribute '{name}'")


ARRAY_ATTRS_KNOWN = {"devices", "device", "sharding", "nbytes", "itemsize", "flat", "searchsorted", "cumprod", "view",
                     "byteswap", "choose", "compress", "partition", "ptp", "fill", "put"}


class DType:
    def __init__(self, name, dt=None):
        self.name = name
        self.dt = dt

    def sa_getattr(self, n):
        return UnknownAttr(n)

    def sa_call(self, x=0, *a):
        return AA(x)

    def __eq__(self, o):
        return isinstance(o, DType) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


def dtype_of(x):
    """the tracked element type of an array, a dtype or a python number; None when it is not tracked"""
    if isinstance(x, DType):
        return x.dt
    if isinstance(x, Arr):
        return x.dt
    if isinstance(x, PyType):
        return {"int": INT, "float": FLOAT}.get(x.name)
    if isinstance(x, bool) or isinstance(x, int):
        return INT
    if isinstance(x, (Fraction, float)):
        return FLOAT
    return None


def UnknownAttr(n):
    from .interp import UnknownVal
    return UnknownVal("dtype." + n)


def _is_bool_dtype(dt):
    return (isinstance(dt, PyType) and dt.name == "bool") or (isinstance(dt, DType) and dt.name == "bool")


def own(o, name, a, k={}):
    """a method of a plain container, with its exceptions those of the program"""
    try:
        return getattr(o, name)(*a, **k)
    except (IndexError, KeyError, ValueError) as e:
        raise PyError(type(e).__name__, str(e))


def py_attr(interp, o, name):
    """attributes of plain python values"""
    from .interp import Builtin
    B = Builtin
    if isinstance(o, str):
        if name in ("join", "format", "upper", "lower", "split", "startswith", "endswith", "replace", "strip",
                    "rstrip", "lstrip", "removeprefix", "removesuffix", "count", "find", "rsplit", "partition",
                    "rpartition", "isdigit", "title", "isidentifier"):
            return B(name, lambda *a, **k: own(o, name, a, k))
    if isinstance(o, dict):
        if name == "get":
            return B(name, lambda k, d=None: o.get(interp.hashable(k), d))
        if name in ("keys", "values", "items"):
            return B(name, lambda: list(getattr(o, name)()))
        if name in ("update", "pop", "setdefault", "copy", "clear", "popitem"):
            return B(name, lambda *a, **k: own(o, name, a, k))
    if isinstance(o, list):
        if name in ("append", "extend", "insert", "pop", "copy", "reverse", "clear", "count"):
            return B(name, lambda *a: own(o, name, a))
        if name in ("index", "remove"):
            return B(name, lambda x, *a: own(o, name, (x, *a)))
        if name == "sort":
            return B(name, lambda key=None, reverse=False: o.sort(
                key=(lambda x: interp.call(key, [x], {})) if key is not None else None, reverse=reverse))
    if isinstance(o, tuple):
        if name in ("index", "count"):
            return B(name, lambda x: getattr(o, name)(x))
    if isinstance(o, (set, frozenset)):
        if name in ("add", "update", "union", "intersection", "difference", "discard", "remove", "issubset",
                    "issuperset", "copy", "isdisjoint"):
            return B(name, lambda *a: getattr(o, name)(*a))
    if isinstance(o, Fraction):
        if name == "is_integer":
            return B(name, lambda: o.denominator == 1)
        if name == "real":
            return o
    return None


# ---------------------------------------------------------------- tables
def build(interp):
    from .interp import Builtin, NS, Class, UnknownVal, Inst, FieldSpec, Func, BoundMethod, Property
    B = Builtin
    libs = {}

    def ns(name, table):
        n = NS(name, table)
        for k, f in list(table.items()):
            if callable(f) and not isinstance(f, (B, NS, Class, PyType, DType, UnknownVal)) and not hasattr(f, "sa_call"):
                table[k] = B(name + "." + k, f)
        libs[name] = n
        return n

    jn = {}

    def axis_of(a):
        return a

    # ---- creation
    def j_array(x, dtype=None, copy=None, **k):
        if hasattr(x, "sa_asarray"):
            return x.sa_asarray()
        if isinstance(x, Inst):
            raise PyError("TypeError", "not a valid array")
        return AA(conv_list(x))

    def conv_list(x):
        if isinstance(x, (list, tuple)):
            return [conv_list(y) for y in x]
        return x
    jn["array"] = jn["asarray"] = j_array
    jn["zeros"] = lambda shape, dtype=None, **k: typed(A.full(dims(shape), False if _is_bool_dtype(dtype) else 0), dtype)
    jn["ones"] = lambda shape, dtype=None, **k: typed(A.full(dims(shape), True if _is_bool_dtype(dtype) else 1), dtype)
    jn["empty"] = lambda shape, dtype=None, **k: typed(A.lazy(dims(shape), lambda *i: uninterp("uninitialised", *[lift(x) for x in i])), dtype)
    jn["full"] = lambda shape, v, dtype=None, **k: typed(A.elementwise(lambda x, y: y, A.full(dims(shape), 0), AA(v)), dtype)
    jn["zeros_like"] = lambda a, dtype=None, **k: typed(A.full(AA(a).shape, 0), dtype if dtype is not None else DType('float', AA(a).dt))
    jn["ones_like"] = lambda a, dtype=None, **k: typed(A.full(AA(a).shape, 1), dtype if dtype is not None else DType('float', AA(a).dt))
    jn["full_like"] = lambda a, v, dtype=None, **k: A.full(AA(a).shape, A.scal(AA(v)))
    jn["empty_like"] = lambda a, **k: A.lazy(AA(a).shape, lambda *i: uninterp("uninitialised", *[lift(x) for x in i]))
    jn["eye"] = lambda n, M=None, k=0, dtype=None: A.eye(dims(n)[0], dims(M)[0] if M is not None else None, k)
    jn["identity"] = lambda n, dtype=None: A.eye(dims(n)[0])

    def sc(x):
        return A.scal(AA(x)) if isinstance(x, (Arr, S)) else x

    def j_arange(a, b=None, step=None, dtype=None):
        for x in (a, b, step):
            static(x, "an array size")
        a, b, step = sc(a), sc(b) if b is not None else None, sc(step) if step is not None else 1
        if b is None:
            a, b = 0, a
        return A.arange(lift(a), lift(b), lift(step))
    jn["arange"] = j_arange

    def j_diag(a, k=0):
        a = AA(a)
        if a.ndim == 1:
            n = a.shape[0]
            if k:
                raise Unsupported("diag offset")
            return lazy((n, n), lambda i, j: num(a.get((i,))) if ctx().decide(add(lift(i), neg(lift(j))), lambda s: s == 0) else const(0))
        return lazy((a.shape[0],), lambda i: a.get((i, dim_norm(add(lift(i), const(k))))))
    jn["diag"] = j_diag

    def j_diagonal(a, offset=0, axis1=0, axis2=1):
        a = AA(a)
        axis1, axis2 = axis1 % a.ndim, axis2 % a.ndim
        rest = [i for i in range(a.ndim) if i not in (axis1, axis2)]

        def fn(*idx):
            src = [None] * a.ndim
            for o, r in enumerate(rest):
                src[r] = idx[o]
            src[axis1] = idx[-1]
            src[axis2] = dim_norm(add(lift(idx[-1]), const(offset)))
            return a.get(tuple(src))
        return lazy(tuple(a.shape[r] for r in rest) + (a.shape[axis1],), fn)
    jn["diagonal"] = j_diagonal
    jn["trace"] = lambda a, *x, **k: A.reduce_sum(j_diagonal(a), -1)
    jn["diag_indices"] = lambda n, ndim=2: tuple(A.arange(const(0), lift(n)) for _ in range(ndim))
    jn["tril"] = lambda a, k=0: lazy(AA(a).shape, lambda *i: AA(a).get(i) if i[-1] <= i[-2] + k else const(0))
    jn["triu"] = lambda a, k=0: lazy(AA(a).shape, lambda *i: AA(a).get(i) if i[-1] >= i[-2] + k else const(0))

    # ---- elementwise
    jn["exp"] = u1(N.exp)
    jn["expm1"] = u1(lambda x: add(N.exp(x), const(-1)))
    jn["log"] = u1(N.log)
    jn["log1p"] = u1(lambda x: N.log(add(x, const(1))))
    jn["log2"] = u1(lambda x: mul(N.log(x), inv(N.log(const(2)))))
    jn["log10"] = u1(lambda x: mul(N.log(x), inv(N.log(const(10)))))
    jn["sin"], jn["cos"] = u1(N.sin), u1(N.cos)
    jn["tan"] = u1(lambda x: mul(N.sin(x), inv(N.cos(x))))
    jn["sinh"], jn["cosh"] = u1(_sinh), u1(_cosh)
    jn["tanh"] = u1(lambda x: mul(_sinh(x), inv(_cosh(x))))
    jn["sqrt"] = u1(N.sqrt)
    jn["square"] = u1(lambda x: N.ipow(x, 2))
    jn["abs"] = jn["absolute"] = jn["fabs"] = u1(_abs)
    jn["negative"] = u1(neg)
    jn["positive"] = u1(lambda x: x)
    jn["reciprocal"] = u1(inv)
    jn["conj"] = jn["conjugate"] = u1(N.conj)
    jn["real"], jn["imag"] = u1(N.real), u1(N.imag)
    jn["deg2rad"] = u1(lambda x: mul(x, mul(N.pi(), const(Fraction(1, 180)))))

    def opaque1(name):
        def g(x, *a, **k):
            x = AA(x)
            extra = [A.scal(AA(v)) if isarr(v) or isinstance(v, (int, Fraction, float)) else repr(v) for v in list(a) + list(k.values())]
            return elementwise(lambda e: uninterp(name, num(e), *extra), x)
        return g
    for nm in ("round", "floor", "ceil", "rint", "trunc", "around", "nan_to_num", "arctan", "arcsin", "arccos",
               "cbrt", "float32", "float16", "bfloat16", "int32", "int64", "sinc"):
        jn[nm] = opaque1(nm)
    jn["sign"] = u1(lambda x: const(1) if ctx().decide(x, lambda s: s > 0) else const(0) if x.iszero else const(-1))
    jn["float64"] = lambda x=0: AA(x)

    def bin_(op):
        return lambda a, b: array_binop(op, AA(a), AA(b))
    for nm, op in (("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("divide", "Div"), ("true_divide", "Div"),
                   ("power", "Pow"), ("float_power", "Pow"), ("floor_divide", "FloorDiv"), ("mod", "Mod"), ("remainder", "Mod"),
                   ("logical_and", "BitAnd"), ("logical_or", "BitOr"), ("logical_xor", "BitXor"), ("matmul", "MatMult"),
                   ("bitwise_and", "BitAnd"), ("bitwise_or", "BitOr")):
        jn[nm] = bin_(op)
    for nm, op in (("less", "Lt"), ("less_equal", "LtE"), ("greater", "Gt"), ("greater_equal", "GtE"), ("equal", "Eq"),
                   ("not_equal", "NotEq")):
        jn[nm] = (lambda op: lambda a, b: array_compare(op, a, b))(op)
    jn["logical_not"] = jn["invert"] = lambda a: elementwise(lambda x: not x, AA(a), kind="b")
    jn["maximum"] = lambda a, b: elementwise(lambda x, y: _maxi(num(x), num(y)), AA(a), AA(b))
    jn["minimum"] = lambda a, b: elementwise(lambda x, y: _mini(num(x), num(y)), AA(a), AA(b))
    jn["fmax"], jn["fmin"] = jn["maximum"], jn["minimum"]

    def j_clip(a, *b, **k):
        lo = k.get("min", k.get("a_min", b[0] if b else None))
        hi = k.get("max", k.get("a_max", b[1] if len(b) > 1 else None))
        r = AA(a)
        if lo is not None:
            r = jn_raw["maximum"](r, lo)
        if hi is not None:
            r = jn_raw["minimum"](r, hi)
        return r
    jn["clip"] = j_clip
    jn["hypot"] = lambda a, b: elementwise(lambda x, y: N.sqrt(add(N.ipow(num(x), 2), N.ipow(num(y), 2))), AA(a), AA(b))

    def j_where(c, a=None, b=None, size=None, fill_value=None):
        if a is None:
            return j_nonzero(c, size=size, fill_value=fill_value)
        c, a, b = AA(c), AA(a), AA(b)

        def f(cc, x, y):
            if isinstance(cc, S):
                cc = not ctx().decide(cc, lambda s: s == 0)
            return x if cc else y

        # evaluate the branches lazily: only the selected one is computed
        shape = A.broadcast_shapes([c.shape, a.shape, b.shape])
        kind = "b" if a.kind == "b" and b.kind == "b" else "f"

        def fn(*idx):
            cc = c.get(A.bidx(idx, c.shape))
            if isinstance(cc, S):
                cc = not ctx().decide(cc, lambda s: s == 0)
            x = a if cc else b
            return x.get(A.bidx(idx, x.shape))
        return lazy(shape, fn, kind)
    jn["where"] = j_where
    jn["select"] = lambda conds, vals, default=0: _select(conds, vals, default)

    def _select(conds, vals, default):
        r = AA(default)
        for c, v in reversed(list(zip(conds, vals))):
            r = j_where(c, v, r)
        return r

    def j_isfinite(x):
        h = ctx().hooks.get("isfinite")
        return elementwise(lambda e: h(num(e)) if h else True, AA(x), kind="b")
    jn["isfinite"] = j_isfinite
    jn["isnan"] = lambda x: elementwise(lambda e: (not ctx().hooks["isfinite"](num(e))) if "isfinite" in ctx().hooks else False, AA(x), kind="b")
    jn["isinf"] = lambda x: elementwise(lambda e: False, AA(x), kind="b")

    def close(x, y):
        d = add(num(x), neg(num(y)))
        if d.iszero:
            return True
        sg = ctx().signs(d)
        if 0 not in sg:
            return False
        return ctx().decide(d, lambda s: s == 0)
    jn["isclose"] = lambda a, b, *x, **k: elementwise(close, AA(a), AA(b), kind="b")
    jn["allclose"] = lambda a, b, *x, **k: j_all(elementwise(close, AA(a), AA(b), kind="b"))
    jn["array_equal"] = lambda a, b, *x, **k: j_all(array_compare("Eq", a, b))

    # ---- reductions
    def red_bool(conj):
        def g(a, axis=None, keepdims=False, **k):
            a = AA(a)
            a = elementwise(lambda x: x if isinstance(x, bool) else not ctx().decide(x, lambda s: s == 0), a, kind="b")
            if axis is None and a.concrete:
                vals = [x for x in a.force().flat]
                return asarr(all(vals) if conj else any(vals))
            if axis is None:
                h = ctx().hooks.get("reduce_bool")
                if h is not None:
                    return asarr(h(a, conj))
                try:        # the same truth value at every entry
                    vals = {a.get(tuple(i)) for i in itertools.product(*[
                        range(d) if isinstance(d, int) else (0, A.gen_index(d, 3), dim_norm(add(d, const(-1)))) for d in a.shape])}
                except NeedSplit:
                    vals = set()
                if vals in ({True}, {False}):
                    return asarr(vals.pop())
                raise Unsupported("boolean reduction over a data-length axis")
            raise Unsupported("boolean reduction over an axis")
        return g
    j_all = red_bool(True)
    jn["all"], jn["any"] = j_all, red_bool(False)

    def j_sum(a, axis=None, dtype=None, keepdims=False, **k):
        return A.reduce_sum(AA(a), axis if axis is None or isinstance(axis, tuple) else int(axis), keepdims)
    jn["sum"] = j_sum

    def j_mean(a, axis=None, keepdims=False, **k):
        a = AA(a)
        n = A.size_of(a.shape) if axis is None else a.shape[axis]
        return array_binop("Div", A.reduce_sum(a, axis, keepdims), asarr(lift(n)))
    jn["mean"] = j_mean

    def j_prod(a, axis=None, **k):
        a = AA(a)
        if axis is None and a.concrete:
            r = const(1)
            for x in a.force().flat:
                r = mul(r, num(x))
            return asarr(r)
        raise Unsupported("prod over an axis")
    jn["prod"] = j_prod

    def j_ext(which):
        f = _maxi if which == "max" else _mini

        def g(a, axis=None, **k):
            a = AA(a)
            if axis is None and a.concrete:
                vals = [num(x) for x in a.force().flat]
                r = vals[0]
                for v in vals[1:]:
                    r = f(r, v)
                return asarr(r)
            h = ctx().hooks.get("reduce_" + which)
            if h is not None and a.ndim == 1:
                return asarr(h(a))
            if a.ndim == 1:
                return asarr(uninterp(which, lift(a.shape[0]), num(a.get((A.gen_index(a.shape[0], 1),)))))
            raise Unsupported(which + " over an axis")
        return g
    jn["max"] = jn["amax"] = j_ext("max")
    jn["min"] = jn["amin"] = j_ext("min")

    def j_diff(a, n=1, axis=-1, **k):
        a = AA(a)
        if n != 1:
            raise Unsupported("diff order")
        axis = axis % a.ndim
        if k:
            raise Unsupported("diff prepend/append")
        lo = [slice(None)] * a.ndim
        hi = [slice(None)] * a.ndim
        lo[axis], hi[axis] = slice(None, -1), slice(1, None)
        return array_binop("Sub", getitem(a, tuple(hi)), getitem(a, tuple(lo)))

    def j_diff2(a, n=1, axis=-1, prepend=None, append=None):
        a = AA(a)
        parts = []
        for v, first in ((prepend, True), (append, False)):
            if v is not None:
                v = AA(v)
                if v.ndim == 0:
                    v = A.full((1,), A.scal(v))
                parts.append((v, first))
        for v, first in parts:
            a = A.concatenate([v, a] if first else [a, v], axis)
        return j_diff(a, n, axis)
    jn["diff"] = j_diff2

    def j_cumsum(a, axis=None, **k):
        a = AA(a)
        if a.ndim != 1:
            raise Unsupported("cumsum rank")
        if a.concrete:
            out, t = [], const(0)
            for x in a.force():
                t = add(t, num(x))
                out.append(t)
            return AA(out)
        h = ctx().hooks.get("cumsum")
        if h is not None:
            return h(a)
        nm = hrand("cumsum", lift(a.shape[0]).key, num(a.get((A.gen_index(a.shape[0], 3),))).key)[0]
        return Arr(a.shape, fn=lambda i: uninterp("cumsum", nm, lift(i)))
    jn["cumsum"] = j_cumsum

    # ---- structure
    def seqarrs(xs):
        if isinstance(xs, Arr):
            return [getitem(xs, i) for i in range(xs.shape[0])]
        return [AA(x) for x in xs]
    jn["concatenate"] = jn["concat"] = lambda xs, axis=0, **k: A.concatenate(seqarrs(xs), axis if axis is not None else 0)
    jn["append"] = lambda a, b, axis=None: A.concatenate([AA(a), AA(b) if AA(b).ndim else A.expand(AA(b), 0)], axis or 0)
    jn["stack"] = lambda xs, axis=0, **k: A.stack(seqarrs(xs), axis)

    def atl(n):
        def g(*xs):
            out = []
            for x in xs:
                x = AA(x)
                if n == 1 and x.ndim == 0:
                    x = A.expand(x, 0)
                if n == 2:
                    if x.ndim == 0:
                        x = A.expand(A.expand(x, 0), 0)
                    elif x.ndim == 1:
                        x = A.expand(x, 0)
                out.append(x)
            return out[0] if len(out) == 1 else out
        return g
    jn["atleast_1d"], jn["atleast_2d"] = atl(1), atl(2)
    jn["vstack"] = lambda xs, **k: A.concatenate([atl(2)(x) for x in seqarrs(xs)], 0)
    jn["row_stack"] = jn["vstack"]

    def j_hstack(xs, **k):
        xs = [atl(1)(x) for x in seqarrs(xs)]
        return A.concatenate(xs, 0 if xs[0].ndim == 1 else 1)
    jn["hstack"] = j_hstack
    jn["column_stack"] = lambda xs: A.concatenate([A.expand(x, 1) if x.ndim == 1 else x for x in seqarrs(xs)], 1)
    jn["dstack"] = None
    jn.pop("dstack")

    def j_block(x):
        def rec(v, depth, maxd):
            if isinstance(v, (list, tuple)):
                parts = [rec(e, depth + 1, maxd) for e in v]
                return A.concatenate(parts, -(maxd - depth))
            v = AA(v)
            while v.ndim < maxd:
                v = A.expand(v, 0)
            return v

        def dp(v):
            return 1 + dp(v[0]) if isinstance(v, (list, tuple)) else 0
        return rec(x, 0, max(dp(x), 1))
    jn["block"] = j_block

    def j_block_diag(*xs):
        xs = [atl(2)(x) for x in xs]
        ns_ = [x.shape for x in xs]
        r = sum(s[0] for s in ns_)
        c = sum(s[1] for s in ns_)
        d = np.empty((r, c), dtype=object)
        d[:] = const(0)
        i = j = 0
        for x in xs:
            f = x.force()
            d[i:i + f.shape[0], j:j + f.shape[1]] = f
            i += f.shape[0]
            j += f.shape[1]
        return from_np(d)
    jn["transpose"] = lambda a, axes=None: A.transpose(AA(a), axes)
    jn["permute_dims"] = jn["transpose"]

    def j_swap(a, x, y):
        a = AA(a)
        ax = list(range(a.ndim))
        ax[x], ax[y] = ax[y], ax[x]
        return A.transpose(a, ax)
    jn["swapaxes"] = j_swap
    jn["matrix_transpose"] = lambda a: j_swap(a, -1, -2)
    jn["moveaxis"] = lambda a, s, d: A.transpose(AA(a), _moveaxes(AA(a).ndim, s, d))
    jn["reshape"] = lambda a, shape=None, *r, **k: A.reshape(AA(a), dims(shape if shape is not None else k["newshape"]))
    jn["ravel"] = lambda a, *x, **k: A.reshape(AA(a), (-1,))
    jn["squeeze"] = lambda a, axis=None: A.squeeze(AA(a), axis)
    jn["expand_dims"] = lambda a, axis: A.expand(AA(a), axis)
    jn["broadcast_to"] = lambda a, shape: elementwise(lambda x, y: x, AA(a), A.full(dims(shape), 0), kind=AA(a).kind)
    jn["broadcast_arrays"] = lambda *xs: [elementwise(lambda x, y: x, AA(a), A.full(A.broadcast_shapes([AA(z).shape for z in xs]), 0)) for a in xs]

    def j_flip(a, axis=None):
        a = AA(a)
        it = [slice(None)] * a.ndim
        for x in (range(a.ndim) if axis is None else [axis] if isinstance(axis, int) else axis):
            it[x % a.ndim] = slice(None, None, -1)
        return getitem(a, tuple(it))
    jn["flip"] = j_flip
    jn["flipud"] = lambda a: j_flip(a, 0)

    def j_roll(a, shift, axis=None):
        a = AA(a)
        ax = 0 if axis is None else axis % a.ndim
        if axis is None and a.ndim != 1:
            raise Unsupported("roll of a flattened array")
        k = interp.as_int(shift)
        if k == 0:
            return a
        it1, it2 = [slice(None)] * a.ndim, [slice(None)] * a.ndim
        it1[ax], it2[ax] = slice(-k, None) if k > 0 else slice(-k, None), slice(None, -k)
        return A.concatenate([getitem(a, tuple(it1)), getitem(a, tuple(it2))], ax)
    jn["roll"] = j_roll

    def j_tile(a, reps):
        a = AA(a)
        reps = list(reps) if isinstance(reps, (tuple, list)) else [reps]
        reps = [dims(r)[0] for r in reps]
        while len(reps) < a.ndim:
            reps.insert(0, 1)
        while a.ndim < len(reps):
            a = A.expand(a, 0)
        shape = tuple(dim_norm(mul(lift(n), lift(r))) for n, r in zip(a.shape, reps))

        def fn(*idx):
            src = []
            for i, n, r in zip(idx, a.shape, reps):
                if isinstance(r, int) and r == 1:
                    src.append(i)
                elif isinstance(n, int):
                    src.append(A.mod(i, n) if n > 1 else 0)
                else:
                    raise Unsupported("tile of a data-length axis")
            if any(isinstance(x, S) for x in src):
                pass
            return a.get(tuple(src))
        return lazy(shape, fn, a.kind)
    jn["tile"] = j_tile

    def j_repeat(a, repeats, axis=None, total_repeat_length=None):
        a = AA(a)
        if axis is None:
            a = A.reshape(a, (-1,)) if a.ndim != 1 else a
            axis = 0
        axis = axis % a.ndim
        if isinstance(repeats, (Arr, S)) and AA(repeats).ndim:
            raise Unsupported("repeat by an array")
        m = dims(repeats)[0]
        n = a.shape[axis]
        if isinstance(n, int) and n == 1:
            shape = a.shape[:axis] + (m,) + a.shape[axis + 1:]
            return lazy(shape, lambda *i: a.get(i[:axis] + (0,) + i[axis + 1:]), a.kind)
        if not isinstance(m, int):
            raise Unsupported("repeat by a symbolic count")
        shape = a.shape[:axis] + (dim_norm(mul(lift(n), const(m))),) + a.shape[axis + 1:]
        return lazy(shape, lambda *i: a.get(i[:axis] + (A.floordiv(i[axis], m),) + i[axis + 1:]), a.kind)
    jn["repeat"] = j_repeat

    def j_take(a, idx, axis=None, **k):
        a = AA(a)
        if axis is None:
            if a.ndim != 1:
                raise Unsupported("take flattened")
            axis = 0
        axis = axis % a.ndim
        return getitem(a, tuple([slice(None)] * axis + [AA(idx) if not isinstance(idx, int) else idx]))
    jn["take"] = j_take

    def j_take_along(a, idx, axis):
        a, idx = AA(a), AA(idx)
        axis = axis % a.ndim
        return lazy(idx.shape, lambda *i: a.get(tuple(A.clamp_idx(idx.get(i), a.shape[ax]) if ax == axis else i[ax]
                                                      for ax in range(a.ndim))))
    jn["take_along_axis"] = j_take_along
    jn["kron"] = lambda a, b: A.kron(AA(a), AA(b))
    jn["dot"] = lambda a, b, **k: (A.matmul(AA(a), AA(b)) if AA(a).ndim and AA(b).ndim else array_binop("Mult", AA(a), AA(b)))
    jn["inner"] = lambda a, b, **k: A.matmul(AA(a), AA(b)) if AA(b).ndim <= 1 else A.matmul(AA(a), A.transpose(AA(b)))
    jn["vdot"] = lambda a, b, **k: A.matmul(elementwise(lambda x: N.conj(num(x)), A.reshape(AA(a), (-1,))), A.reshape(AA(b), (-1,)))
    jn["outer"] = lambda a, b: A.matmul(A.expand(AA(a), 1), A.expand(AA(b), 0))
    jn["cross"] = None
    jn.pop("cross")

    def j_einsum(spec, *ops, **k):
        if not isinstance(spec, str):
            raise Unsupported("einsum form")
        ops = [AA(o) for o in ops]
        spec = spec.replace(" ", "")
        ins, _, out = spec.partition("->")
        ins = ins.split(",")
        if "->" not in spec:
            allc = "".join(ins)
            out = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
        if "..." in spec:
            # expand the ellipsis with fresh letters
            nb = max(o.ndim - (len(i) - 3) for o, i in zip(ops, ins) if "..." in i)
            letters = [chr(0x100 + j) for j in range(nb)]
            ins = [i.replace("...", "".join(letters[nb - (o.ndim - (len(i) - 3)):])) if "..." in i else i for o, i in zip(ops, ins)]
            out = out.replace("...", "".join(letters))
        ext = {}
        for o, i in zip(ops, ins):
            if o.ndim != len(i):
                raise PyError("ValueError", f"einsum: operand rank mismatch {spec}")
            for c, d in zip(i, o.shape):
                if c in ext and not A.dim_eq(ext[c], d):
                    if ext[c] == 1:
                        ext[c] = d
                    elif not (isinstance(d, int) and d == 1):
                        raise PyError("ValueError", "einsum: size mismatch")
                else:
                    ext.setdefault(c, d)
        summed = [c for c in ext if c not in out]

        def fn(*idx):
            env = dict(zip(out, idx))

            def rec(k_):
                if k_ == len(summed):
                    t = const(1)
                    for o, i in zip(ops, ins):
                        t = mul(t, num(o.get(tuple(0 if (isinstance(o.shape[j], int) and o.shape[j] == 1) else env[c] for j, c in enumerate(i)))))
                    return t
                c = summed[k_]
                n = ext[c]
                if isinstance(n, int):
                    tot = const(0)
                    for v in range(n):
                        env[c] = v
                        tot = add(tot, rec(k_ + 1))
                    return tot

                def body(i_):
                    env[c] = i_
                    return rec(k_ + 1)
                return A.symbolic_sum(n, body)
            return rec(0)
        return lazy(tuple(ext[c] for c in out), fn)
    jn["einsum"] = j_einsum

    def j_tensordot(a, b, axes=2):
        a, b = AA(a), AA(b)
        if not isinstance(axes, int):
            raise Unsupported("tensordot axes")
        if axes == 0:
            x = a
            for _ in range(b.ndim):
                x = A.expand(x, x.ndim)
            return elementwise(lambda p, q: mul(num(p), num(q)), x, b)
        if axes == 1:
            return A.matmul(a, b)
        raise Unsupported("tensordot")
    jn["tensordot"] = j_tensordot
    jn["shape"] = lambda a: tuple(AA(a).shape) if not hasattr(a, "sa_getattr") else tuple(a.sa_getattr("shape"))

    def j_ndim(a):
        if isinstance(a, Inst):
            return interp.getattr(a, "ndim")
        if isinstance(a, (int, Fraction, float)):
            return 0
        return AA(a).ndim

    def j_shape(a):
        if isinstance(a, Inst):
            return interp.getattr(a, "shape")
        return tuple(AA(a).shape)
    jn["ndim"], jn["shape"] = j_ndim, j_shape
    jn["size"] = lambda a, axis=None: A.size_of(AA(a).shape) if axis is None else AA(a).shape[axis]
    jn["isscalar"] = lambda a: isinstance(a, (int, Fraction, float)) or (isarr(a) and AA(a).ndim == 0)

    # ---- order
    def j_searchsorted(a, v, side="left", method="scan", **k):
        if method == "compare_all" and A.Extents.level is not None:
            A.lazy_pair(AA(a).shape + AA(v).shape)
        a, v = AA(a), AA(v)

        def f(x):
            x = num(x)
            h = ctx().hooks.get("searchsorted")
            if h is not None:
                r = h(a, x, side)
                if r is not None:
                    return lift(r)
            s = uninterp("searchsorted", lift(a.shape[0]), num(a.get((A.gen_index(a.shape[0], 4),))) if not a.concrete else 0, x, side)
            s.integral = True
            return s
        return elementwise(f, v)
    jn["searchsorted"] = j_searchsorted
    jn["digitize"] = lambda x, bins, right=False: j_searchsorted(bins, x, side="left" if right else "right")

    def make_perm(keys, what):
        """keys: most significant first"""
        keys = [AA(k) for k in keys]
        n = keys[0].shape[0]
        for k in keys[1:]:
            if not A.dim_eq(k.shape[0], n):
                raise PyError("TypeError", "sort keys must have the same length")
        if isinstance(n, int) and n <= 8:
            h = ctx().hooks.get("small_sort")
            order = list(range(n))
            import functools

            def cmp(i, j):
                for k in keys:
                    d = add(num(k.get((i,))), neg(num(k.get((j,)))))
                    if ctx().decide(d, lambda s: s < 0):
                        return -1
                    if ctx().decide(d, lambda s: s > 0):
                        return 1
                return 0
            order.sort(key=functools.cmp_to_key(cmp))
            return AA(order)
        h = ctx().hooks.get("perm")
        if h is not None:
            r = h(keys, what)
            if r is not None:
                return r
        if not isinstance(n, int) and len(keys) == 1:
            r = monotone_perm(keys[0], n)
            if r is not None:
                return r
        nm = "perm%x" % (hrand("perm", lift(n).key, tuple(_genkey(k) for k in keys))[0] % (1 << 40))
        r = Arr((n,), fn=lambda i: atom(nm, idx_key(i), integral=True), tag=("perm", keys))
        return r

    def sample_positions(n):
        last = dim_norm(add(lift(n), const(-1)))
        return [0, 1, A.gen_index(n, 5), dim_norm(add(lift(n), const(-2))), last]

    def monotone_perm(k, n):
        """keys that are increasing / constant / decreasing affine functions of the position"""
        for a in (1, 0, -1):
            ds = []
            for i in sample_positions(n):
                v = k.get((i,))
                if isinstance(v, bool) or num(v).aff is None and num(v).const() is None:
                    return None
                ds.append(add(num(v), neg(mul(const(a), lift(i)))).key)
            if len(set(ds)) == 1:
                last = dim_norm(add(lift(n), const(-1)))
                return Arr((n,), fn=(lambda i: lift(i)) if a >= 0 else (lambda i: add(lift(last), neg(lift(i)))))
        return None

    def _genkey(k):
        ctx().probe += 1
        try:
            return num(k.get((A.gen_index(k.shape[0], 5),))).key
        finally:
            ctx().probe -= 1
    jn["argsort"] = lambda a, axis=-1, **k: make_perm([a], "argsort") if not k.get("descending") else _unsup("descending sort")
    jn["lexsort"] = lambda keys, axis=-1: make_perm(list(reversed(list(keys))), "lexsort")

    def j_sort(a, axis=-1, **k):
        a = AA(a)
        return getitem(a, make_perm([a], "sort"))
    jn["sort"] = j_sort

    def j_nonzero(m, size=None, fill_value=None):
        if size is None:
            static(m, "the number of nonzero entries")
        else:
            static(size, "an array size")
        m = AA(m)
        h = ctx().hooks.get("nonzero")
        if h is not None:
            r = h(m, size, fill_value)
            if r is not None:
                return r
        if m.concrete:
            vals = [x if isinstance(x, bool) else not ctx().decide(num(x), lambda s: s == 0) for x in m.force()]
            out = [i for i, v in enumerate(vals) if v]
            if size is not None:
                size = dims(size)[0]
                out = (out + [0] * size)[:size]
            return (AA(out) if out else A.lazy((0,), lambda i: const(0)),)
        if m.ndim == 1:
            n = m.shape[0]
            vals = [m.get((i,)) for i in sample_positions(n)]
            vals = [v if isinstance(v, bool) else not ctx().decide(num(v), lambda s: s == 0) for v in vals]
            if all(vals) and (size is None or A.dim_eq(dims(size)[0], n)):
                return (Arr((n,), fn=lambda i: lift(i)),)
        raise Unsupported("nonzero over a data-length axis")
    jn["nonzero"] = j_nonzero
    jn["flatnonzero"] = lambda m, size=None, fill_value=None: j_nonzero(m, size=size)[0]
    jn["argwhere"] = lambda m, size=None, fill_value=None: A.expand(j_nonzero(m, size=size)[0], 1)

    def _unsup(m):
        raise Unsupported(m)
    jn["vectorize"] = lambda f, **k: _unsup("vectorize")
    jn["pi"] = None
    jn["newaxis"] = None
    jn_vals = {"pi": A.alias(asarr(N.pi()), ""), "newaxis": None, "inf": float("inf"), "nan": float("nan"), "e": None}
    jn.pop("pi"), jn.pop("newaxis")
    jn_raw = dict(jn)

    # ---- finfo etc.
    class FInfo:
        def sa_getattr(self, n):
            if n in ("min", "max", "eps", "tiny", "smallest_normal"):
                s = atom("finfo." + n, positive=(n != "min"))
                return asarr(s if n != "min" else neg(atom("finfo.max", positive=True)))
            raise Unsupported("finfo." + n)

    def j_finfo(dt=None):
        t = dtype_of(dt)
        if t is not None and not t:
            raise PyError("ValueError", "data type is not inexact")
        return FInfo()

    def j_result_type(*a):
        ts = [dtype_of(x) for x in a]
        return DType("float", None if None in ts else frozenset().union(*ts))
    jn["finfo"] = j_finfo
    jn["dtype"] = lambda x=None: DType("float")
    jn["issubdtype"] = lambda a, b: True
    jn["result_type"] = j_result_type
    jn["promote_types"] = j_result_type

    lin = {"inv": lambda a: A.linv(AA(a)), "solve": lambda a, b: A.solve(AA(a), AA(b)),
           "det": lambda a: asarr(A.det_np(A.slicelast(AA(a), (), 2))) if AA(a).ndim == 2 else lazy(AA(a).shape[:-2], lambda *i: A.det_np(A.slicelast(AA(a), i, 2))),
           "slogdet": None, "cholesky": None, "norm": None, "eigh": None, "pinv": None, "matrix_power": None, "multi_dot": None}

    def l_slogdet(a):
        d = lin["det"](a)
        return (asarr(const(1)) if d.ndim == 0 else A.full(d.shape, 1), elementwise(N.log, d))

    def l_chol(a, *x, **k):
        a = AA(a)
        upper = k.get("upper", False)

        def blk(bi):
            M = A.slicelast(a, bi, 2)
            n = M.shape[0]
            L = np.empty((n, n), dtype=object)
            L[:] = const(0)
            for j in range(n):
                s = M[j, j]
                for q in range(j):
                    s = add(s, neg(mul(L[j, q], L[j, q])))
                L[j, j] = N.sqrt(s)
                iv = inv(L[j, j])
                for i in range(j + 1, n):
                    s = M[i, j]
                    for q in range(j):
                        s = add(s, neg(mul(L[i, q], L[j, q])))
                    L[i, j] = mul(s, iv)
            return L.T if upper else L
        cache = {}

        def fn(*idx):
            bi = idx[:-2]
            kk = tuple(idx_key(i) for i in bi)
            if kk not in cache:
                cache[kk] = blk(bi)
            return cache[kk][idx[-2:]]
        return lazy(a.shape, fn)
    lin["slogdet"], lin["cholesky"] = l_slogdet, l_chol
    lin["norm"] = lambda a, *x, **k: elementwise(N.sqrt, A.reduce_sum(elementwise(lambda v: N.ipow(num(v), 2), AA(a))))
    lin["matrix_transpose"] = lambda a: j_swap(a, -1, -2)
    lin["multi_dot"] = lambda xs: __import__("functools").reduce(lambda p, q: A.matmul(p, q), [AA(x) for x in xs])

    def l_mpow(a, n):
        r = A.eye(AA(a).shape[-1])
        for _ in range(n):
            r = A.matmul(r, AA(a))
        return r
    lin["matrix_power"] = l_mpow
    lin = {k: v for k, v in lin.items() if v is not None}
    ns("jax.numpy.linalg", lin)

    def tri_solve(a, b, trans=0, lower=False, unit_diagonal=False, **k):
        a = AA(a)
        m = jn_raw["tril"](a) if lower else jn_raw["triu"](a)
        if trans in (1, 2, "T", "C"):
            m = A.transpose(m)
        return A.solve(m, AA(b))

    def s_solve(a, b, lower=False, assume_a="gen", **k):
        a = AA(a)
        if assume_a in ("pos", "sym", "her"):
            # only one triangle is read
            m = a

            def fn(*i):
                r, c = i[-2], i[-1]
                tri = (r >= c) if lower else (r <= c)
                return m.get(i) if tri else m.get(i[:-2] + (c, r))
            a = lazy(a.shape, fn)
        return A.solve(a, AA(b))

    def sym_from(c, lower):
        return c
    sl = {"expm": lambda a, *x, **k: from_np(A.expm_np(A.slicelast(AA(a), (), 2))) if AA(a).ndim == 2 else _unsup("batched expm"),
          "block_diag": j_block_diag, "solve_triangular": tri_solve, "solve": s_solve,
          "inv": lin["inv"], "det": lin["det"],
          "cholesky": lambda a, lower=False, **k: l_chol(a, upper=not lower),
          "cho_factor": lambda a, lower=False, **k: (CholTag(AA(a), bool(lower)), bool(lower)),
          "cho_solve": lambda cl, b, **k: A.solve(cl[0].m if isinstance(cl[0], CholTag) else (
              A.matmul(AA(cl[0]), A.transpose(AA(cl[0]))) if cl[1] else A.matmul(A.transpose(AA(cl[0])), AA(cl[0]))), AA(b))}

    class CholTag:
        def __init__(self, m, lower):
            self.m, self.lower = m, lower

        def sa_asarray(self):
            return l_chol(self.m, upper=not self.lower)

        def sa_getattr(self, n):
            return array_attr(interp, self.sa_asarray(), n)
    ns("jax.scipy.linalg", sl)

    def int_const(x):
        a = AA(x)
        return a

    def fact(x):
        def f(e):
            c = num(e).aconst()
            if c is not None and c >= 0:
                return const(math.factorial(c))
            return uninterp("factorial", num(e))
        return elementwise(f, AA(x))

    def gamln(x):
        def f(e):
            c = num(e).aconst()
            if c is not None and c >= 1:
                return N.log(const(math.factorial(c - 1)))
            return uninterp("gammaln", num(e))
        return elementwise(f, AA(x))

    def gam(x):
        def f(e):
            c = num(e).aconst()
            if c is not None and c >= 1:
                return const(math.factorial(c - 1))
            return uninterp("gamma", num(e))
        return elementwise(f, AA(x))
    ns("jax.scipy.special", {"gammaln": gamln, "factorial": fact, "gamma": gam,
                             "xlogy": lambda a, b: elementwise(lambda x, y: mul(num(x), N.log(num(y))), AA(a), AA(b))})
    ns("jax.scipy", {"linalg": libs["jax.scipy.linalg"], "special": libs["jax.scipy.special"]})
    jnp = ns("jax.numpy", jn)
    jnp.table.update({k: v for k, v in jn_vals.items() if v is not None or k == "newaxis"})
    jnp.table["linalg"] = libs["jax.numpy.linalg"]
    arr_t = PyType("jax.Array", lambda x: isarr(x), AA)
    jnp.table["ndarray"] = arr_t
    jnp.table["bool_"] = DType("bool")
    for nm in ("floating", "integer", "inexact", "number"):
        jnp.table[nm] = DType(nm)
    npns = NS("numpy", dict(jnp.table))
    for k, v in list(npns.table.items()):
        if isinstance(v, _interp().Builtin):
            npns.table[k] = g = B(v.name, v.fn)
            g.host = True
    libs["numpy"] = npns
    def hosted(name, table):
        out = NS(name, dict(table))
        for k, v in table.items():
            if isinstance(v, _interp().Builtin):
                out.table[k] = g = B(v.name, v.fn)
                g.host = True
        return out
    libs["numpy.linalg"] = npns.table["linalg"] = hosted("numpy.linalg", libs["jax.numpy.linalg"].table)
    libs["scipy.linalg"] = hosted("scipy.linalg", libs["jax.scipy.linalg"].table)
    libs["scipy.special"] = hosted("scipy.special", libs["jax.scipy.special"].table)

    def lyap(a, q):
        """X with A X + X A^T = Q"""
        a, q = AA(a).force(), AA(q).force()
        n = a.shape[0]
        M = np.empty((n * n, n * n), dtype=object)
        for i in range(n):
            for j in range(n):
                for k in range(n):
                    for l in range(n):
                        t = const(0)
                        if j == l:
                            t = add(t, a[i, k])
                        if i == k:
                            t = add(t, a[j, l])
                        M[i * n + j, k * n + l] = t
        rhs = np.empty((n * n, 1), dtype=object)
        for i in range(n):
            for j in range(n):
                rhs[i * n + j, 0] = q[i, j]
        r = A.matmul(from_np(A.mat_inv_np(M)), from_np(rhs))
        return A.reshape(r, (n, n))
    libs["scipy.linalg"].table["solve_continuous_lyapunov"] = B("lyap", lyap)
    libs["scipy.linalg"].table["solve_continuous_lyapunov"].host = True
    libs["scipy"] = NS("scipy", {"linalg": libs["scipy.linalg"]})

    # ---- jax.lax
    def l_cond(pred, tf, ff, *ops, **k):
        if "operand" in k:
            ops = (k["operand"],)
        if "operands" in k:
            ops = k["operands"]
        pred = AA(pred)
        if pred.ndim:
            raise PyError("TypeError", "Pred must be a scalar")
        p = pred.get(())
        if isinstance(p, S):
            p = not ctx().decide(p, lambda s: s == 0)
        r = to_arrays(interp.staged(tf if p else ff, list(ops), {}))
        if isinstance(r, Arr) and r.dt and "float" not in r.dt:
            o = interp.staged(ff if p else tf, list(ops), {})      # the other branch must have the same element type
            o = dtype_of(o if isinstance(o, (Arr, bool, int, Fraction, float)) else None)
            if o is not None and o and o != r.dt:
                raise PyError("TypeError", "cond branches must have equal output types but they differ")
        return r

    def to_arrays(v):
        l, td = tree_flatten(v)
        return tree_unflatten(td, [AA(x) if isinstance(x, (int, Fraction, float, S)) else x for x in l])

    def l_switch(idx, branches, *ops, **k):
        if "operand" in k:
            ops = (k["operand"],)
        i = num(AA(idx).get(()))
        br = list(interp.iterate(branches))
        c = i.aconst()
        if c is None:
            for j in range(len(br)):
                if j == len(br) - 1:
                    c = j
                    break
                d = add(i, const(-j))
                if ctx().decide(d, (lambda s: s <= 0)):
                    c = j
                    break
        c = max(0, min(len(br) - 1, c))
        return to_arrays(interp.staged(br[c], list(ops), {}))

    def l_dus(a, u, start):
        a, u = AA(a), AA(u)
        st = [A.norm_idx(A.scal(AA(x)), a.shape[k]) for k, x in enumerate(start if isinstance(start, (tuple, list)) else [getitem(start, i) for i in range(start.shape[0])])]
        # jax clamps the start so that the update fits
        out = []
        for s, n, m in zip(st, a.shape, u.shape):
            if isinstance(s, int) and isinstance(n, int) and isinstance(m, int):
                s = max(0, min(s, n - m))
            out.append(s)
        return A.at_update(a, tuple(slice(s, dim_norm(add(lift(s), lift(m))), None) for s, m in zip(out, u.shape)), u, "set")

    def l_ds(a, start, sizes):
        a = AA(a)
        st = [A.scal(AA(x)) for x in (start if isinstance(start, (tuple, list)) else [getitem(start, i) for i in range(start.shape[0])])]
        sizes = dims(sizes)

        def fn(*idx):
            return a.get(tuple(A.norm_idx(dim_norm(add(lift(s), lift(i))), n) for s, i, n in zip(st, idx, a.shape)))
        return lazy(sizes, fn, a.kind)

    def l_din(a, idx, axis=0, keepdims=True):
        a = AA(a)
        it = [slice(None)] * a.ndim
        it[axis] = A.scal(AA(idx))
        r = getitem(a, tuple(it))
        return A.expand(r, axis) if keepdims else r

    def l_dsin(a, start, size, axis=0):
        a = AA(a)
        st = [0] * a.ndim
        st[axis] = A.scal(AA(start))
        sz = list(a.shape)
        sz[axis] = dims(size)[0]
        return l_ds(a, tuple(st), tuple(sz))

    def l_fori(lo, hi, f, init, **k):
        lo_, hi_ = dim_norm(A.scal(AA(lo))), dim_norm(A.scal(AA(hi)))
        if isinstance(lo_, int) and isinstance(hi_, int):
            v = init
            for i in range(lo_, hi_):
                v = interp.staged(f, [asarr(const(i)), v], {})
            return v
        if isinstance(lo, Arr) or isinstance(hi, Arr):
            derivative("fori_loop with traced bounds")
        n = dim_norm(add(lift(hi_), neg(lift(lo_))))
        g = B("fori", lambda c, i: (interp.staged(f, [i, c], {}), None))
        g.inner = f
        sc_ = Scan(interp, g, init, A.arange(lift(lo_), lift(hi_)), n, False, "fori:" + site_of(f))
        return sc_.final()

    def l_map(f, xs, **k):
        return VFunc(interp, f, 0, 0).sa_call(xs)

    def vmap(f=None, in_axes=0, out_axes=0, **k):
        if f is None:
            return B("vmap", lambda g: VFunc(interp, g, in_axes, out_axes))
        return VFunc(interp, f, in_axes, out_axes)
    lax = {"cond": l_cond, "switch": l_switch, "dynamic_update_slice": l_dus, "dynamic_slice": l_ds,
           "dynamic_index_in_dim": l_din, "dynamic_slice_in_dim": l_dsin, "fori_loop": l_fori, "map": l_map,
           "associative_scan": lambda f, e, reverse=False, axis=0: do_ascan(interp, f, e, reverse, axis),
           "stop_gradient": lambda x: (derivative("stop_gradient"), x)[1], "select": lambda c, a, b: j_where(c, a, b),
           "square": jn_raw["square"], "exp": jn_raw["exp"], "log": jn_raw["log"], "sqrt": jn_raw["sqrt"], "rsqrt": u1(lambda x: inv(N.sqrt(x))),
           "while_loop": lambda *a, **k: (derivative("while_loop"), _unsup("while_loop"))[1],
           "concatenate": lambda xs, dimension: A.concatenate([AA(x) for x in xs], dimension),
           "rev": lambda a, d: j_flip(a, d), "max": jn_raw["maximum"], "min": jn_raw["minimum"],
           "add": jn_raw["add"], "sub": jn_raw["subtract"], "mul": jn_raw["multiply"], "div": jn_raw["divide"],
           "dot": jn_raw["dot"], "transpose": lambda a, p: A.transpose(AA(a), p), "reshape": lambda a, s, *x: A.reshape(AA(a), dims(s)),
           "broadcast": None, "cumsum": lambda a, axis=0, reverse=False: j_cumsum(a)}
    lax = {k: v for k, v in lax.items() if v is not None}
    lx = ns("jax.lax", lax)
    sb = B("jax.lax.scan", lambda f, init, xs=None, length=None, reverse=False, unroll=1, **k: do_scan(interp, f, init, xs, length, reverse, unroll, **k))
    lx.table["scan"] = sb

    def jitter(mode):
        def jit(f=None, **k):
            if f is None:
                return B("jit", lambda g: jit(g, **k))
            st = []
            for x in ("static_argnums", "static_argnames"):
                v = k.get(x)
                st += list(v) if isinstance(v, (tuple, list)) else [] if v is None else [v]
            if isinstance(f, _interp().Func):
                f = copy.copy(f)
                f.traced, f.static = mode, tuple(st)
            return f
        return jit
    jit = jitter(True)
    tm = lambda f, *t, is_leaf=None: tree_map(interp, f, *t, is_leaf=is_leaf)

    def t_reduce(f, t, *init, **k):
        ls, _ = tree_flatten(t)
        if init:
            acc = init[0]
        else:
            acc, ls = ls[0], ls[1:]
        for x in ls:
            acc = interp.call(f, [acc, x], {})
        return acc
    tu = {"tree_map": tm, "map": tm, "tree_reduce": t_reduce, "reduce": t_reduce,
          "tree_leaves": lambda t, **k: tree_flatten(t)[0], "leaves": lambda t, **k: tree_flatten(t)[0],
          "tree_flatten": lambda t, **k: tree_flatten(t), "flatten": lambda t, **k: tree_flatten(t),
          "tree_unflatten": lambda td, l: tree_unflatten(td, list(l)), "unflatten": lambda td, l: tree_unflatten(td, list(l)),
          "tree_structure": lambda t: tree_flatten(t)[1], "structure": lambda t: tree_flatten(t)[1]}
    ns("jax.tree_util", dict(tu))
    ns("jax.tree", dict(tu))
    rnd = {"normal": lambda key, shape=(), dtype=None, **k: Arr(dims(shape), fn=lambda *i: atom("normal", repr(key), *[idx_key(x) for x in i])),
           "PRNGKey": lambda s: ("key", s), "key": lambda s: ("key", s), "split": lambda k, n=2: [(k, i) for i in range(n)]}
    ns("jax.random", rnd)
    libs["jax.random"].table["KeyArray"] = UnknownVal("KeyArray")
    jx = {"jit": jit, "vmap": vmap, "checkpoint": jit, "remat": jit, "named_call": jit,
          "named_scope": lambda *a, **k: None, "device_put": lambda x, *a, **k: x, "block_until_ready": lambda x: x,
          "pure_callback": lambda *a, **k: (derivative("pure_callback"), _unsup("pure_callback")),
          "grad": lambda *a, **k: _unsup("grad"), "value_and_grad": lambda *a, **k: _unsup("grad"),
          "ensure_compile_time_eval": lambda: None, "eval_shape": lambda *a, **k: _unsup("eval_shape")}
    jaxns = ns("jax", jx)
    jaxns.table.update({"numpy": jnp, "lax": lx, "scipy": libs["jax.scipy"], "tree_util": libs["jax.tree_util"],
                        "tree": libs["jax.tree"], "random": libs["jax.random"], "Array": arr_t,
                        "config": NS("jax.config", {"update": B("update", lambda *a: None),
                                                    "jax_enable_x64": True}),
                        "debug": NS("jax.debug", {"print": B("print", lambda *a, **k: None), "callback": B("cb", lambda *a, **k: None)}),
                        "nn": NS("jax.nn", {})})

    # ---- equinox
    Mod = Class("Module", [], {}, None)
    Mod.is_eqx = True

    def field(default=_MISS, default_factory=None, static=False, converter=None, init=True, **k):
        if converter is not None:
            raise Unsupported("eqx.field(converter=)")
        if default is not _MISS:
            return FieldSpec(default, True, None, static, init)
        return FieldSpec(None, False, default_factory, static, init)

    def tree_at(where, tree, replace=None, replace_fn=None, **k):
        tgt = interp.call(where, [tree], {})
        tl = list(tgt) if isinstance(tgt, (tuple, list)) else [tgt]
        rl = list(replace) if isinstance(tgt, (tuple, list)) and replace is not None else [replace]

        def rec(v):
            for t, r in zip(tl, rl):
                if v is t:
                    return r if replace_fn is None else interp.call(replace_fn, [v], {})
            if isinstance(v, tuple):
                return tuple(rec(e) for e in v)
            if isinstance(v, list):
                return [rec(e) for e in v]
            if isinstance(v, dict):
                return {kk: rec(e) for kk, e in v.items()}
            if isinstance(v, Inst):
                o = Inst(v.cls)
                o.fields = {kk: rec(e) for kk, e in v.fields.items()}
                return o
            return v
        return rec(tree)
    eq = ns("equinox", {"field": field, "filter_jit": jitter("arrays"), "filter_vmap": vmap, "tree_at": tree_at,
                        "is_array": isarr, "is_inexact_array": isarr, "is_array_like": lambda x: isarr(x) or isinstance(x, (int, Fraction)),
                        "error_if": lambda x, *a, **k: x,
                        "partition": lambda *a, **k: _unsup("partition")})
    eq.table["Module"] = Mod

    # ---- python libs
    def partial(f, *a, **k):
        return PartialObj(interp, f, a, k)

    def fwraps(g, *a, **k):
        return B("wraps", lambda f: f)

    def freduce(f, xs, *init):
        xs = interp.iterate(xs)
        if init:
            acc = init[0]
        else:
            acc, xs = xs[0], xs[1:]
        for x in xs:
            acc = interp.call(f, [acc, x], {})
        return acc

    class PropFactory:
        pass
    ns("functools", {"partial": partial, "wraps": fwraps, "lru_cache": jit_like(B), "cache": lambda f: f,
                     "cached_property": lambda f: Property(f), "reduce": freduce, "singledispatch": lambda f: _unsup("singledispatch")})

    def dreplace(o, **ch):
        specs = interp.field_specs(o.cls)
        kw = {}
        for n, sp in specs.items():
            if n in ch:
                kw[n] = ch.pop(n)
            elif sp.init:
                kw[n] = interp.getattr(o, n)
        if ch:
            kw.update(ch)
        return interp.instantiate(o.cls, [], kw)

    def dfields(o):
        c = o.cls if isinstance(o, Inst) else o
        return [FieldObj(n) for n in interp.field_specs(c)]

    def dasdict(o):
        return dict(o.fields)
    ns("dataclasses", {"replace": dreplace, "fields": dfields, "field": field, "asdict": dasdict,
                       "is_dataclass": lambda o: isinstance(o, (Inst, Class)),
                       "dataclass": lambda c=None, **k: c if c is not None else B("dc", lambda x: x)})
    NT = Class("NamedTuple", [], {}, None)
    NT.is_namedtuple = True
    ty = NS("typing", {"NamedTuple": NT, "TYPE_CHECKING": False, "cast": B("cast", lambda t, v: v),
                       "overload": B("overload", lambda f: f), "final": B("final", lambda f: f)})
    libs["typing"] = ty
    libs["typing_extensions"] = ty

    def namedtuple(name, fields, **k):
        c = Class(name, [NT], {}, None)
        c.nt_fields = fields.replace(",", " ").split() if isinstance(fields, str) else list(fields)
        c.annotations = {f: None for f in c.nt_fields}
        return c
    libs["collections"] = NS("collections", {"namedtuple": B("namedtuple", namedtuple),
                                             "Counter": B("Counter", lambda it=(): _counter(interp.iterate(it))),
                                             "defaultdict": B("defaultdict", lambda f=None: DefDict(interp, f)),
                                             "OrderedDict": B("OrderedDict", lambda *a: dict(*a))})
    libs["collections.abc"] = NS("collections.abc", {
        "Sequence": PyType("Sequence", lambda x: isinstance(x, (list, tuple, str)), None),
        "Mapping": PyType("Mapping", lambda x: isinstance(x, dict), None),
        "Callable": PyType("Callable", lambda x: isinstance(x, (Func, BoundMethod, B)), None),
        "Iterable": PyType("Iterable", lambda x: isinstance(x, (list, tuple, str, dict, set, Arr)), None)})
    libs["collections"].table["abc"] = libs["collections.abc"]
    libs["abc"] = NS("abc", {"abstractmethod": B("abstractmethod", lambda f: f), "ABC": UnknownVal("abc.ABC"), "ABCMeta": UnknownVal("abc.ABCMeta")})
    libs["warnings"] = NS("warnings", {"warn": B("warn", lambda *a, **k: ctx().log.append(("warn", a[0] if a else ""))),
                                       "simplefilter": B("sf", lambda *a, **k: None), "filterwarnings": B("sf", lambda *a, **k: None)})
    mt = {"pi": asarr(N.pi()), "inf": float("inf"), "nan": float("nan")}
    for nm in ("sqrt", "exp", "log", "sin", "cos", "cosh", "sinh"):
        mt[nm] = B("math." + nm, jn_raw[nm])
    mt["factorial"] = B("math.factorial", lambda n: math.factorial(interp.as_int(n)))
    mt["comb"] = B("math.comb", lambda a, b: math.comb(interp.as_int(a), interp.as_int(b)))
    mt["prod"] = B("math.prod", lambda xs: freduce(B("m", lambda a, b: interp.binop("Mult", a, b)), xs, 1))
    mt["isclose"] = B("isclose", jn_raw["isclose"])
    for nm, f in mt.items():
        if isinstance(f, B):
            f.host = True
        elif isinstance(f, Arr):
            mt[nm] = A.alias(f, "")
    libs["math"] = NS("math", mt)
    import itertools as it_
    libs["itertools"] = NS("itertools", {
        "chain": B("chain", lambda *xs: [y for x in xs for y in interp.iterate(x)]),
        "product": B("product", lambda *xs, repeat=1: list(it_.product(*[interp.iterate(x) for x in xs], repeat=repeat))),
        "accumulate": B("accumulate", lambda *a: _unsup("accumulate")),
        "count": B("count", lambda s=0, st=1: range(s, s + 100000, st)), "repeat": B("repeat", lambda x, n: [x] * n),
        "zip_longest": B("zl", lambda *xs, fillvalue=None: list(it_.zip_longest(*[interp.iterate(x) for x in xs], fillvalue=fillvalue)))})
    import operator as op_
    libs["operator"] = NS("operator", {
        "add": B("add", lambda a, b: interp.binop("Add", a, b)), "mul": B("mul", lambda a, b: interp.binop("Mult", a, b)),
        "matmul": B("matmul", lambda a, b: interp.binop("MatMult", a, b)),
        "attrgetter": B("attrgetter", lambda n: B("ag", lambda o: interp.getattr(o, n))),
        "itemgetter": B("itemgetter", lambda *n: B("ig", lambda o: interp.getitem(o, n[0]) if len(n) == 1 else tuple(interp.getitem(o, x) for x in n)))})
    return libs


_MISS = object()


class FieldObj:
    def __init__(self, n):
        self.n = n

    def sa_getattr(self, k):
        if k == "name":
            return self.n
        from .interp import UnknownVal
        return UnknownVal("field." + k)


def _counter(xs):
    d = {}
    for x in xs:
        d[x] = d.get(x, 0) + 1
    return d


class DefDict(dict):
    def __init__(self, interp, f):
        super().__init__()
        self.i, self.f = interp, f

    def __contains__(self, k):
        return True

    def __missing__(self, k):
        v = self.i.call(self.f, [], {})
        self[k] = v
        return v


def jit_like(B):
    def g(f=None, **k):
        if f is None or isinstance(f, int):
            return B("dec", lambda h: h)
        return f
    return g


class PartialObj:
    def __init__(self, interp, f, a, k):
        self.interp, self.func, self.a, self.k = interp, f, a, k

    def sa_call(self, *a, **k):
        kw = dict(self.k)
        kw.update(k)
        return self.interp.call(self.func, list(self.a) + list(a), kw)

    def sa_getattr(self, n):
        if n == "func":
            return self.func
        if n == "args":
            return self.a
        raise PyError("AttributeError", n)


def python_builtins(interp):
    from .interp import (Builtin, Inst, Class, Func, BoundMethod, Property, StaticMethod, ClassMethod, SuperObj,
                         ExcClass, PYEXC, UnknownVal, ExcInst, Module)
    B = Builtin
    t = {}

    def p_len(x):
        if isinstance(x, Arr):
            if x.ndim == 0:
                raise PyError("TypeError", "len() of unsized object")
            return x.shape[0]
        if isinstance(x, Inst):
            f, _ = x.cls.lookup("__len__")
            if f is not None:
                return interp.call(BoundMethod(f, x), [], {})
            nt = getattr(x.cls, "nt_fields", None)
            if nt:
                return len(nt)
            raise PyError("TypeError", f"object of type '{x.cls.name}' has no len()")
        if isinstance(x, (tuple, list, dict, str, set, range, frozenset)):
            return len(x)
        raise PyError("TypeError", f"object of type {type(x).__name__} has no len()")

    def p_range(*a):
        if A.Extents.level is not None and any(not isinstance(dim_norm(A.scal(AA(x))), int) for x in a):
            interp.unrolled()
        return range(*[interp.as_int(x) for x in a])

    def p_isinstance(x, c):
        if isinstance(c, tuple):
            return any(p_isinstance(x, k) for k in c)
        if hasattr(x, "sa_isinstance"):
            return x.sa_isinstance(c)
        if isinstance(c, Class):
            return isinstance(x, Inst) and x.cls.is_sub(c)
        if isinstance(c, PyType):
            return bool(c.pred(x))
        if isinstance(c, ExcClass):
            return isinstance(x, ExcInst) and x.cls.name == c.name
        if isinstance(c, UnknownVal):
            if c.name.startswith("tinygp") or c.name.split(".")[-1] in ("Kernel",):
                return False
            raise Unsupported(f"isinstance against {c!r}")
        if isinstance(c, Builtin):
            return False
        raise PyError("TypeError", "isinstance() arg 2 must be a type")

    def p_issub(a, c):
        if isinstance(c, tuple):
            return any(p_issub(a, k) for k in c)
        return isinstance(a, Class) and isinstance(c, Class) and a.is_sub(c)

    def to_int(x=0, *a):
        if isinstance(x, str):
            return int(x)
        if isinstance(x, (bool, int)):
            return int(x)
        if isinstance(x, (Fraction, float)):
            return int(x)
        if isinstance(x, (Arr, S)):
            e = asarr(x)
            interp.concrete(x, "a Python integer")
            v = e.get((0,) * e.ndim) if e.concrete else None
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, S):
                if v.const() is not None:
                    return int(Fraction(v.const()))
                if v.integral or v.aff is not None:
                    return v
                return uninterp("int", v)
        raise PyError("TypeError", "int() argument")

    def to_float(x=0):
        if isinstance(x, str):
            if x in ("inf", "-inf", "nan"):
                return float(x)
            return Fraction(x)
        if isinstance(x, (Arr, S)):
            interp.concrete(x, "a Python number")
            return A.alias(asarr(x), "") if interp.tracing is not None else asarr(x)
        if isinstance(x, float):
            return x
        return Fraction(x)

    def p_str(x=""):
        if isinstance(x, Fraction):
            return str(float(x))
        return str(x)

    def p_sum(xs, start=0):
        acc = start
        for x in interp.iterate(xs):
            acc = interp.binop("Add", acc, x)
        return acc

    def p_ext(f, nm):
        def g(*xs, key=None, default=_MISS):
            if len(xs) == 1:
                xs = interp.iterate(xs[0])
            xs = list(xs)
            if not xs:
                if default is not _MISS:
                    return default
                raise PyError("ValueError", f"{nm}() arg is an empty sequence")
            ks = [interp.call(key, [x], {}) if key is not None else x for x in xs]
            b = 0
            for i in range(1, len(xs)):
                if interp.truth(interp.compare("Lt" if nm == "min" else "Gt", ks[i], ks[b])):
                    b = i
            return xs[b]
        return g

    def p_getattr(o, n, *d):
        try:
            return interp.getattr(o, n)
        except PyError as e:
            if e.cls == "AttributeError" and d:
                return d[0]
            raise

    def p_type(x, *a):
        if isinstance(x, Inst):
            return x.cls
        if isinstance(x, Class):
            return UnknownVal("type")
        if hasattr(x, "sa_type"):
            return x.sa_type()
        for nm in ("bool", "int", "float", "str", "tuple", "list", "dict"):
            if t[nm].pred(x):
                return t[nm]
        if isarr(x):
            return interp.libs["jax"].table["Array"]
        if x is None:
            return UnknownVal("NoneType")
        return UnknownVal("type")

    def p_super(*a):
        if len(a) == 2:
            return SuperObj(a[0], a[1])
        raise Unsupported("super() with no frame")

    def p_sorted(xs, key=None, reverse=False):
        xs = interp.iterate(xs)
        ks = [interp.call(key, [x], {}) if key is not None else x for x in xs]
        ks = [interp.hashable(k) if isinstance(k, (Arr, S)) else k for k in ks]
        order = sorted(range(len(xs)), key=lambda i: ks[i], reverse=bool(reverse))
        return [xs[i] for i in order]

    def p_map(f, *xs):
        return [interp.call(f, list(z), {}) for z in zip(*[interp.iterate(x) for x in xs])]

    def p_round(x, n=0):
        if isinstance(x, (int, Fraction)):
            return round(x, n) if n else round(x)
        return interp.libs["jax.numpy"].table["round"].fn(x, n)

    def p_abs(x):
        if isarr(x):
            return elementwise(lambda e: _abs(num(e)), asarr(x))
        return abs(x)

    def p_all(xs):
        return all(interp.truth(x) for x in interp.iterate(xs))

    def p_any(xs):
        return any(interp.truth(x) for x in interp.iterate(xs))

    def p_zip(*xs, strict=False):
        return list(zip(*[interp.iterate(x) for x in xs]))

    def p_tuple(x=()):
        return tuple(interp.iterate(x))

    def p_pow(a, b):
        return interp.binop("Pow", a, b)

    for nm, f in (("len", p_len), ("range", p_range), ("isinstance", p_isinstance), ("issubclass", p_issub), ("sum", p_sum),
                  ("min", p_ext(min, "min")), ("max", p_ext(max, "max")), ("getattr", p_getattr),
                  ("hasattr", lambda o, n: interp.hasattr(o, n)), ("setattr", lambda o, n, v: interp.setattr(o, n, v)),
                  ("super", p_super), ("sorted", p_sorted), ("map", p_map), ("round", p_round), ("abs", p_abs),
                  ("all", p_all), ("any", p_any), ("zip", p_zip), ("pow", p_pow),
                  ("enumerate", lambda x, start=0: list(enumerate(interp.iterate(x), start))),
                  ("filter", lambda f, xs: [x for x in interp.iterate(xs) if (interp.truth(interp.call(f, [x], {})) if f is not None else interp.truth(x))]),
                  ("reversed", lambda x: list(reversed(interp.iterate(x)))), ("print", lambda *a, **k: ctx().log.append(("print", a))),
                  ("repr", lambda x: repr(x)), ("id", lambda x: id(x)), ("callable", lambda x: isinstance(x, (Func, BoundMethod, Builtin, Class, VFunc, PartialObj))),
                  ("hash", lambda x: hash(x)), ("iter", lambda x: iter(interp.iterate(x))), ("divmod", lambda a, b: (interp.binop("FloorDiv", a, b), interp.binop("Mod", a, b))),
                  ("vars", lambda o: o.fields if isinstance(o, Inst) else {}), ("dir", lambda o: list(getattr(o, "fields", {})))):
        t[nm] = B(nm, f)
        t[nm].python = True

    def p_next(it, *d):
        try:
            if isinstance(it, list):
                return it[0] if it else (d[0] if d else _stop())
            return next(it)
        except StopIteration:
            if d:
                return d[0]
            raise PyError("StopIteration", "")

    def _stop():
        raise PyError("StopIteration", "")
    t["next"] = B("next", p_next)
    t["property"] = B("property", lambda f=None, *a: Property(f))
    t["staticmethod"] = B("staticmethod", lambda f: StaticMethod(f))
    t["classmethod"] = B("classmethod", lambda f: ClassMethod(f))
    t["slice"] = B("slice", lambda *a: slice(*a))
    t["type"] = B("type", p_type)
    t["int"] = PyType("int", lambda x: isinstance(x, int), to_int)
    t["float"] = PyType("float", lambda x: isinstance(x, (Fraction, float)), to_float)
    t["str"] = PyType("str", lambda x: isinstance(x, str), p_str)
    t["bool"] = PyType("bool", lambda x: isinstance(x, bool), lambda x=False: interp.truth(x))
    t["tuple"] = PyType("tuple", lambda x: isinstance(x, tuple) or (isinstance(x, Inst) and getattr(x.cls, "nt_fields", None) is not None), p_tuple)
    t["list"] = PyType("list", lambda x: isinstance(x, list), lambda x=(): list(interp.iterate(x)))
    t["dict"] = PyType("dict", lambda x: isinstance(x, dict), lambda x=None, **k: dict(({} if x is None else dict(x) if isinstance(x, dict) else {interp.hashable(a): b for a, b in [interp.iterate(y) for y in interp.iterate(x)]}), **k))
    t["set"] = PyType("set", lambda x: isinstance(x, set), lambda x=(): set(interp.hashable(y) for y in interp.iterate(x)))
    t["frozenset"] = t["set"]
    t["complex"] = PyType("complex", lambda x: isinstance(x, complex), None)
    t["object"] = Class("object", [], {"__setattr__": B("object.__setattr__", lambda o, n, v: interp.setattr(o, n, v, force=True))}, None)
    t["NotImplemented"] = NotImplemented
    t["Ellipsis"] = Ellipsis
    t["__name__"] = "x"
    for n in PYEXC:
        t[n] = ExcClass(n, py=PYEXC[n])
    t["RecursionError"] = ExcClass("RecursionError", py=RecursionError)
    return t
