"""Array abstract domain: shape-tracked "pull" arrays.

An array is a shape (each extent a literal or a symbolic affine size) and a
function from index tuples to scalar value-graph nodes.  Data-length axes are
never enumerated: an element is only ever described at a symbolic position, so
statements about position k hold for every k (and every array length) in the
region of the index space the context describes.
"""
from __future__ import annotations
import itertools
from fractions import Fraction
import numpy as np
from . import num as N
from .num import (S, NeedSplit, Unsupported, add, atom, const, hrand, lift, mul, neg, inv, show,
                  uninterp, P, Q1, Q2, KSER, _pmul, _padd, _fact_inv, Resample)


class Context:
    def __init__(self, facts=None, decisions=None, subst=None):
        self.facts = dict(facts or {})      # key -> set of signs
        self.decisions = dict(decisions or {})
        self.subst = dict(subst or {})      # index symbol -> affine in nonneg slacks
        self._probe = 0
        self.tokens = []
        self.ntok = 0
        self.hooks = {}
        self.stats = {"decided": 0}
        self.used = []
        self.scans = {}
        self.log = []
        self.order_group = {}
        self.ordered = {}                   # atom name -> position extractor (sorted coordinate)

    @property
    def probe(self):
        return self._probe

    @probe.setter
    def probe(self, v):
        # every probing session has its own token, which keys the values memoised during it
        while len(self.tokens) < v:
            self.ntok += 1
            self.tokens.append(self.ntok)
        del self.tokens[v:]
        self._probe = v

    @property
    def token(self):
        return self.tokens[-1] if self.tokens else None

    def fact(self, s, signs):
        self.facts[s.key] = set(signs)
        self.facts[neg(s).key] = {-x for x in signs}

    def aff_sign(self, aff):
        tot = {}
        for k, v in aff.items():
            if v == 0:
                continue
            if k is None:
                tot[None] = tot.get(None, 0) + v
            elif k in self.subst:
                for kk, vv in self.subst[k].items():
                    tot[kk] = tot.get(kk, 0) + v * vv
            else:
                return {-1, 0, 1}
        c = tot.pop(None, 0)
        vs = [v for v in tot.values() if v]
        if not vs:
            return {(c > 0) - (c < 0)}
        if all(v > 0 for v in vs):
            return {1} if c > 0 else {0, 1} if c == 0 else {-1, 0, 1}
        if all(v < 0 for v in vs):
            return {-1} if c < 0 else {0, -1} if c == 0 else {-1, 0, 1}
        return {-1, 0, 1}

    def signs(self, s):
        if s.iszero:
            return {0}
        r = {-1, 0, 1}
        if s.aff is not None:
            r &= self.aff_sign(s.aff)
        if len(r) > 1:
            r &= s.iv.signs()
        if s.key in self.facts:
            r &= self.facts[s.key]
        if len(r) > 1:
            r = r & self.struct_signs(s, 4)
        if len(r) > 1:
            r = r & self.linear_signs(s)
        if len(r) > 1 and s.key in self.decisions:
            r &= {self.decisions[s.key]}
        if not r:
            raise Infeasible("contradictory sign facts for " + show(s))
        return r

    def linear_signs(self, s):
        """sign of a linear combination: terms of known sign, ordered coordinates"""
        lf = linform(s)
        if lf is None:
            return {-1, 0, 1}
        c, terms = lf
        terms = [(k, x) for k, x in terms if k != 0]
        ords = {}
        rest = []
        for k, x in terms:
            if x.op == "atom" and x.args and x.args[0] in self.ordered:
                ords.setdefault(self.order_group.get(x.args[0], x.args[0]), []).append((k, x))
            else:
                rest.append((k, x))
        tot = {(c > 0) - (c < 0)}

        def combine(a, b):
            out = set()
            for x in a:
                for y in b:
                    if x == y or y == 0:
                        out.add(x)
                    elif x == 0:
                        out.add(y)
                    else:
                        return {-1, 0, 1}
            return out
        for nm, ts in ords.items():
            if len(ts) == 2 and ts[0][0] == -ts[1][0]:
                (k, x), (_, y) = ts
                i, j = self.ordered[x.args[0]](x), self.ordered[y.args[0]](y)
                d = add(lift(i), neg(lift(j)))
                sg = self.aff_sign(d.aff) if d.aff is not None else {-1, 0, 1}
                k = 1 if k > 0 else -1
                tot = combine(tot, {k * z for z in sg})
            else:
                rest.extend(ts)
        for k, x in rest:
            sg = x.iv.signs()
            if x.aff is not None:
                sg = sg & self.aff_sign(x.aff)
            for kk in (x.key,):
                if kk in self.facts:
                    sg = sg & self.facts[kk]
                if kk in self.decisions:
                    sg = sg & {self.decisions[kk]}
            k = 1 if k > 0 else -1
            tot = combine(tot, {k * z for z in sg})
        return tot

    def struct_signs(self, s, depth):
        """sign through products / sums of operands of known sign"""
        if depth == 0:
            return {-1, 0, 1}

        def sg(x):
            if x.iszero:
                return {0}
            r = x.iv.signs()
            if x.aff is not None:
                r = r & self.aff_sign(x.aff)
            if x.key in self.facts:
                r = r & self.facts[x.key]
            if x.key in self.decisions:
                r = r & {self.decisions[x.key]}
            if len(r) > 1:
                r = r & self.struct_signs(x, depth - 1)
            return r
        if s.op == "mul":
            if s.args[0].key == s.args[1].key:
                return {abs(x) for x in sg(s.args[0])}
            return {x * y for x in sg(s.args[0]) for y in sg(s.args[1])}
        if s.op == "inv":
            return sg(s.args[0]) - {0} or {-1, 1}
        if s.op == "pow":
            b = sg(s.args[0])
            return {x ** s.args[1] for x in b}
        if s.op == "add":
            a, b = sg(s.args[0]), sg(s.args[1])
            r = set()
            for x in a:
                for y in b:
                    if x == y or y == 0:
                        r.add(x)
                    elif x == 0:
                        r.add(y)
                    else:
                        return {-1, 0, 1}
            return r
        return {-1, 0, 1}

    def decide(self, d, pred):
        """truth value of pred(sign(d))"""
        sg = self.signs(d)
        outs = {bool(pred(x)) for x in sg}
        if len(outs) == 1:
            return outs.pop()
        t = self.tiny_guard(d)
        if t is not None:
            self.log.append(("guard", show(d)))
            return bool(pred(t))
        if self.probe:
            return bool(pred(sorted(sg)[-1 if self.hooks.get("probe_last") else 0]))
        raise NeedSplit(d, sg, show(d))

    def tiny_guard(self, d):
        """|x| compared with a literal below 1e-12 ('flush underflow to zero'):
        the generic magnitude is above the threshold"""
        if d.op == "mul" and d.args[0].op == "const" and d.args[0].args[0] == -1:
            r = self.tiny_guard(d.args[1])
            return None if r is None else -r
        if d.op != "add":
            return None
        for s, o in (d.args, d.args[::-1]):
            c = s.const()
            if c is None:
                continue
            sg = 1
            if o.op == "mul" and o.args[0].op == "const" and o.args[0].args[0] == -1:
                o, sg = o.args[1], -1
            if o.op in ("abs", "sqrt") or o.iv.lo >= 0 or self.signs(o) <= {0, 1}:
                if 0 < abs(c) <= Fraction(1, 10 ** 12) and (c < 0) == (sg > 0):
                    return sg
        return None


class Infeasible(Exception):
    pass


def linform(s):
    """(constant, [(coefficient, node)]) of a sum, or None"""
    acc, c = {}, Fraction(0)
    todo = [(Fraction(1), s)]
    n = 0
    while todo:
        k, x = todo.pop()
        n += 1
        if n > 200:
            return None
        if x.op == "const":
            c += k * Fraction(x.args[0])
        elif x.op == "add":
            todo.append((k, x.args[0]))
            todo.append((k, x.args[1]))
        elif x.op == "mul" and x.args[0].op == "const":
            todo.append((k * Fraction(x.args[0].args[0]), x.args[1]))
        elif x.op == "mul" and x.args[1].op == "const":
            todo.append((k * Fraction(x.args[1].args[0]), x.args[0]))
        else:
            o = acc.get(x.key)
            acc[x.key] = ((o[0] if o else 0) + k, x)
    return c, list(acc.values())


CTX = [Context()]


def ctx():
    return CTX[-1]


# ------------------------------------------------------------------ helpers
def dim_norm(d):
    if isinstance(d, S):
        c = d.aconst()
        return c if c is not None else d
    return int(d)


def dim_eq(a, b):
    a, b = dim_norm(a), dim_norm(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return lift(a).key == lift(b).key


def idx_key(i):
    return i if isinstance(i, int) else ("s", i.key)


def norm_idx(i, n):
    """normalise an index into an axis of extent n"""
    if isinstance(i, bool):
        i = int(i)
    if isinstance(i, S):
        c = i.aconst()
        if c is not None:
            i = c
    if isinstance(i, (int, np.integer)):
        i = int(i)
        if i < 0:
            n = dim_norm(n)
            i = dim_norm(add(lift(n), const(i))) if isinstance(n, S) else i + n
        return i
    if i.aff is not None and isinstance(dim_norm(n), S):
        # affine index that is certainly negative wraps around
        if ctx().aff_sign(i.aff) == {-1}:
            return dim_norm(add(lift(n), i))
    return i


def clamp_idx(i, n):
    """an index computed by the program: normalised, and clamped into the axis as jax gathers do"""
    i = norm_idx(i, n)
    n = dim_norm(n)
    if isinstance(i, int) and isinstance(n, int):
        return min(max(i, 0), n - 1) if n > 0 else i
    if isinstance(n, S):
        d = add(lift(i), neg(n))
        if d.aff is not None and ctx().aff_sign(d.aff) <= {0, 1}:
            return dim_norm(add(n, const(-1)))
    return i


class Extents:
    """extents of the arrays formed: under how many enclosing maps and loops over a symbolic number of positions"""
    level = None        # not watched, or the symbolic extents of the open maps and loops
    formed = None       # told the extents of every array with more than one symbolic extent in all


class within:
    """evaluate the body of a map or loop over n positions"""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.old = Extents.level
        if self.old is not None and not isinstance(self.n, int):
            Extents.level = self.old + (self.n,)

    def __exit__(self, *e):
        Extents.level = self.old


def varying(xs):
    """values which differ between the positions of the enclosing map or loop"""
    if Extents.level is None:
        return xs
    out = []
    for x in xs:
        y = Arr(x.shape, fn=_Read(x), kind=x.kind)
        y.dt = x.dt
        out.append(y)
    return out


class _Read:
    def __init__(self, x):
        self.x = x

    def __call__(self, *idx):
        return self.x.get(idx)


def nested(n):
    """a loop over n positions"""
    if Extents.level and not isinstance(n, int):
        Extents.formed(None, Extents.level + (n,))


def lazy_pair(shape):
    """an intermediate array of that shape"""
    sym = tuple(d for d in shape if not isinstance(d, int))
    if len(sym) + len(Extents.level) > 1:
        Extents.formed(None, Extents.level + sym)


class Arr:
    __slots__ = ("level", "shape", "data", "fn", "memo", "tag", "kind", "loc", "pdata", "dt", "host")

    def __init__(self, shape, data=None, fn=None, kind="f", tag=None):
        self.shape = tuple(dim_norm(d) for d in shape)
        self.data = data
        self.fn = fn
        self.memo = {}
        self.kind = kind      # 'f' scalar nodes, 'b' python bools
        self.tag = tag
        self.loc = None
        self.pdata = None
        self.host = None      # a mutable numpy array: "" if created by the program, else the input it is (a view of)
        self.dt = None        # element type, when tracked: the inputs it is promoted from, and "float"
        self.level = Extents.level
        if self.level is not None:
            sym = tuple(d for d in self.shape if not isinstance(d, int))
            if sym and len(sym) + len(self.level) > 1:
                Extents.formed(self, self.level + sym)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def concrete(self):
        return all(isinstance(d, int) for d in self.shape)

    def get(self, idx):
        if 0 in self.shape:
            if ctx().hooks.get("empty"):
                return atom("empty", *[idx_key(i) for i in idx])
            raise PyError("IndexError", "reading an empty array")
        if self.data is not None and all(isinstance(i, int) for i in idx):
            return self.data[idx] if idx else self.data[()]
        k = tuple(idx_key(i) for i in idx)
        m = self.memo
        if k in m:
            return m[k]
        if CTX and CTX[-1].tokens:
            kk = ("probe", CTX[-1].tokens[-1], k)
            if kk in m:
                return m[kk]
        if self.data is not None:
            v = self._gather(idx)
        elif Extents.level is None:
            v = self.fn(*idx)
        else:
            old, Extents.level = Extents.level, self.level or ()
            try:
                v = self.fn(*idx)
            finally:
                Extents.level = old
        tk = ctx().token
        if tk is None:
            m[k] = v
        else:
            m[("probe", tk, k)] = v
        return v

    def _gather(self, idx):
        """symbolic index into a literal-extent axis"""
        for ax, i in enumerate(idx):
            if not isinstance(i, int):
                n = self.shape[ax]
                cands = [self.get(idx[:ax] + (j,) + idx[ax + 1:]) for j in range(n)]
                if all(_same(c, cands[0]) for c in cands):
                    return cands[0]
                if any(isinstance(c, bool) for c in cands):
                    raise Unsupported("symbolic index into a literal boolean array")
                return uninterp("gather", i, *cands)
        raise AssertionError

    def force(self):
        if not self.concrete:
            raise Unsupported(f"array with a symbolic extent {self.shape} used where a literal extent is needed")
        if self.data is None:
            tk = ctx().token
            if tk is not None and self.pdata is not None and self.pdata[0] == tk:
                return self.pdata[1]
            d = np.empty(self.shape, dtype=object)
            old = Extents.level
            if old is not None:
                Extents.level = self.level or ()
            try:
                for idx in itertools.product(*[range(n) for n in self.shape]):
                    d[idx] = self.fn(*idx)
            finally:
                Extents.level = old
            if tk is not None:
                self.pdata = (tk, d)
                return d
            self.data = d
        return self.data

    def __repr__(self):
        return f"Arr{self.shape}"


def _same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b if isinstance(a, bool) and isinstance(b, bool) else lift(a).key == lift(b).key
    return a.key == b.key


def from_np(d, kind="f"):
    return Arr(d.shape, data=d, kind=kind)


def scal(x):
    """python/array scalar -> element"""
    if isinstance(x, Arr):
        if x.ndim:
            raise Unsupported("array used as scalar")
        return x.get(())
    if isinstance(x, bool) or isinstance(x, S):
        return x
    r = lift(x)
    if r is NotImplemented:
        raise Unsupported(f"cannot use {type(x).__name__} as an array element")
    return r


def asarr(x):
    if isinstance(x, Arr):
        return x
    if isinstance(x, (list, tuple)):
        return stack([asarr(v) for v in x], 0)
    e = scal(x)
    d = np.empty((), dtype=object)
    d[()] = e
    r = Arr((), data=d, kind="b" if isinstance(e, bool) else "f")
    if isinstance(x, int):
        r.dt = frozenset()
    elif isinstance(x, Fraction):
        r.dt = frozenset({"float"})
    return r


def maybe_scalar(a):
    return a


def lazy(shape, fn, kind="f", tag=None):
    a = Arr(shape, fn=fn, kind=kind, tag=tag)
    if a.concrete:
        n = 1
        for d in a.shape:
            n *= d
        if n <= 4096:
            a.force()
    return a


def broadcast_shapes(shapes):
    r = max(len(s) for s in shapes)
    out = []
    for i in range(r):
        dims = [s[len(s) - r + i] for s in shapes if len(s) - r + i >= 0]
        big = [d for d in dims if not (isinstance(d, int) and d == 1)]
        if not big:
            out.append(1)
            continue
        for d in big[1:]:
            if not dim_eq(d, big[0]):
                raise PyError("TypeError", f"incompatible shapes for broadcasting: {shapes}")
        out.append(big[0])
    return tuple(out)


class PyError(Exception):
    """an exception the analysed program would raise"""

    def __init__(self, cls, msg=""):
        super().__init__(f"{cls}: {msg}")
        self.cls, self.msg = cls, msg


def bidx(idx, shape):
    off = len(idx) - len(shape)
    return tuple(0 if (isinstance(d, int) and d == 1) else idx[off + i] for i, d in enumerate(shape))


def elementwise(f, *xs, kind="f"):
    xs = [asarr(x) for x in xs]
    shape = broadcast_shapes([x.shape for x in xs])
    if all(x.concrete for x in xs):
        ds = [x.force() for x in xs]
        if shape == ():
            d = np.empty((), dtype=object)
            d[()] = f(*[q[()] for q in ds])
            return from_np(d, kind)
        d = np.empty(shape, dtype=object)
        for idx in itertools.product(*[range(n) for n in shape]):
            d[idx] = f(*[q[bidx(idx, q.shape)] for q in ds])
        return from_np(d, kind)
    return Arr(shape, fn=lambda *idx: f(*[x.get(bidx(idx, x.shape)) for x in xs]), kind=kind)


def num(x):
    return const(int(x)) if isinstance(x, bool) else x


def alias(a, host):
    """the same array as another object: a view (host is that of a) or an immutable copy (None)"""
    r = Arr(a.shape, data=a.data, fn=a.fn, kind=a.kind, tag=a.tag)
    r.memo, r.loc, r.pdata, r.dt, r.host = a.memo, a.loc, a.pdata, a.dt, host
    return r


def overwrite(a, new):
    """in-place modification of a numpy array"""
    a.data, a.fn, a.memo, a.kind, a.tag, a.loc, a.pdata, a.dt = new.data, new.fn, new.memo, new.kind, new.tag, new.loc, new.pdata, new.dt


# ------------------------------------------------------------------ indexing
class SliceMap:
    """element j of the sliced axis is element start + step*j of the source"""

    def __init__(self, sl, n):
        def val(v):
            if v is None:
                return None
            if isinstance(v, Arr):
                v = v.get(())
            v = dim_norm(v) if isinstance(v, S) else v
            return v
        st, sp, step = val(sl.start), val(sl.stop), val(sl.step)
        step = 1 if step is None else step
        if not isinstance(step, int) or step == 0:
            raise Unsupported("slice step")
        n = dim_norm(n)
        if isinstance(n, int) and all(v is None or isinstance(v, int) for v in (st, sp)):
            a, b, c = slice(st, sp, step).indices(n)
            self.start, self.step = a, c
            self.size = len(range(a, b, c))
            return

        def nm(v, default):
            if v is None:
                return default
            if isinstance(v, int) and v < 0:
                return dim_norm(add(lift(n), const(v)))
            if isinstance(v, S) and v.aff is not None and ctx().aff_sign(v.aff) == {-1}:
                return dim_norm(add(lift(n), v))
            # clamp to the extent
            d = add(lift(n), neg(lift(v)))
            if d.aff is not None and ctx().aff_sign(d.aff) <= {-1}:
                return n
            return v
        if step > 0:
            a, b = nm(st, 0), nm(sp, n)
        else:
            a = nm(st, dim_norm(add(lift(n), const(-1))))
            b = nm(sp, -1)
        self.start, self.step = a, step
        ln = add(lift(b), neg(lift(a)))
        if step < 0:
            ln = neg(ln)
        m = abs(step)
        if m == 1:
            self.size = dim_norm(ln)
        else:
            self.size = floordiv(add(ln, const(m - 1)), m)
        if isinstance(self.size, int) and self.size < 0:
            self.size = 0

    def src(self, j):
        r = add(lift(self.start), mul(const(self.step), lift(j)))
        return dim_norm(r)

    def inverse(self, i):
        """position j with src(j)==i, or None if i is not selected"""
        d = add(lift(i), neg(lift(self.start)))
        if self.step < 0:
            d = neg(d)
        m = abs(self.step)
        if m > 1:
            r = mod(d, m)
            if not isinstance(r, int):
                raise Unsupported("parity of a symbolic index")
            if r != 0:
                return None
            d = lift(floordiv(d, m))
        if ctx().decide(d, lambda s: s < 0):
            return None
        e = add(d, neg(lift(self.size)))
        if ctx().decide(e, lambda s: s >= 0):
            return None
        return dim_norm(d)


def _affdiv(aff, m):
    q = {}
    r = 0
    for k, v in aff.items():
        if k is None:
            q[None] = q.get(None, 0) + v // m
            r = v % m
        elif v % m == 0:
            q[k] = v // m
        else:
            return None
    return q, r


def from_aff(aff):
    tot = const(aff.get(None, 0))
    for k, v in aff.items():
        if k is not None and v:
            tot = add(tot, mul(const(v), atom(*k, aff=True)))
    return tot


def floordiv(a, m):
    a = lift(a)
    c = a.aconst()
    if c is not None:
        return c // m
    if a.aff is not None:
        r = _affdiv(a.aff, m)
        if r is not None:
            return dim_norm(from_aff(r[0]))
    return uninterp("floordiv", a, m)


def mod(a, m):
    a = lift(a)
    c = a.aconst()
    if c is not None:
        return c % m
    if a.aff is not None:
        r = _affdiv(a.aff, m)
        if r is not None:
            return r[1]
    return uninterp("mod", a, m)


def getitem(a, items):
    r = _getitem(a, items)
    if a.dt is not None and r is not a and isinstance(r, Arr):
        r.dt = a.dt
    return r


def _getitem(a, items):
    if not isinstance(items, tuple):
        items = (items,)
    items = list(items)
    nreal = sum(1 for x in items if x is not None and x is not Ellipsis)
    if Ellipsis in [x if x is Ellipsis else 0 for x in items]:
        k = next(i for i, x in enumerate(items) if x is Ellipsis)
        items[k:k + 1] = [slice(None)] * (a.ndim - nreal)
    else:
        items += [slice(None)] * (a.ndim - nreal)
    if sum(1 for x in items if x is not None) > a.ndim:
        raise PyError("IndexError", f"Too many indices: array is {a.ndim}-dimensional")
    # build per-axis maps
    out_shape = []
    maps = []      # for each source axis: function(out_idx)->source index
    ax = 0
    adv = []       # advanced (array) indices
    for it in items:
        if it is None:
            out_shape.append(1)
            continue
        n = a.shape[ax]
        if isinstance(it, Arr) and it.ndim == 0:
            it = it.get(())
        if isinstance(it, (list, tuple)):
            it = asarr(it)
        if isinstance(it, bool):
            raise Unsupported("boolean index")
        if isinstance(it, (int, np.integer)) or isinstance(it, S):
            if isinstance(n, int) and isinstance(it, (int, np.integer)) and not (-n <= it < n) and not ctx().hooks.get("empty"):
                raise PyError("IndexError", f"index {it} out of bounds for axis of size {n}")
            i = clamp_idx(it, n) if isinstance(it, S) else norm_idx(it, n)
            maps.append(("c", i))
        elif isinstance(it, slice):
            sm = SliceMap(it, n)
            maps.append(("s", sm, len(out_shape)))
            out_shape.append(sm.size)
        elif isinstance(it, Arr):
            if it.kind == "b":
                raise Unsupported("boolean mask indexing")
            adv.append((len(maps), len(out_shape), it))
            maps.append(("a", it, None))
        else:
            raise Unsupported(f"index of type {type(it).__name__}")
        ax += 1
    if adv:
        ash = broadcast_shapes([t[2].shape for t in adv])
        pos = adv[0][1]
        out_shape = out_shape[:pos] + list(ash) + out_shape[pos:]
        na = len(ash)

        def shift(p):
            return p if p < pos else p + na
    else:
        na, pos, ash = 0, 0, ()

        def shift(p):
            return p
    srcshape = a.shape

    def fn(*idx):
        src = []
        for k, mp in enumerate(maps):
            if mp[0] == "c":
                src.append(mp[1])
            elif mp[0] == "s":
                src.append(mp[1].src(idx[shift(mp[2])]))
            else:
                sub = idx[pos:pos + na]
                v = mp[1].get(bidx(sub, mp[1].shape))
                src.append(clamp_idx(v, srcshape[k]))
        return a.get(tuple(src))
    if a.data is None:
        return Arr(out_shape, fn=fn, kind=a.kind)      # read when it is used
    return lazy(out_shape, fn, kind=a.kind)


def at_update(a, items, val, op):
    """a.at[items].set/add/multiply(val)"""
    if not isinstance(items, tuple):
        items = (items,)
    items = list(items)
    nreal = sum(1 for x in items if x is not Ellipsis)
    if any(x is Ellipsis for x in items):
        k = next(i for i, x in enumerate(items) if x is Ellipsis)
        items[k:k + 1] = [slice(None)] * (a.ndim - nreal)
    items += [slice(None)] * (a.ndim - len(items))
    val = asarr(val)
    specs = []
    out_shape = []
    for ax, it in enumerate(items):
        n = a.shape[ax]
        if isinstance(it, Arr) and it.ndim == 0:
            it = it.get(())
        if isinstance(it, slice):
            sm = SliceMap(it, n)
            specs.append(("s", sm))
            out_shape.append(sm.size)
        elif isinstance(it, (int, np.integer, S)) and not isinstance(it, bool):
            i = norm_idx(it, n)
            if isinstance(i, int) and isinstance(n, int) and not 0 <= i < n:
                raise Unsupported("out-of-bounds scatter (dropped by jax)")
            specs.append(("c", i))
        elif isinstance(it, Arr) and it.ndim == 1 and ax == 0 and len(items) == a.ndim and \
                all(isinstance(z, slice) and z == slice(None) for z in items[1:]):
            specs.append(("p", it))
            out_shape.append(it.shape[0])
        else:
            raise Unsupported("scatter index form")
    # validate that val broadcasts to out_shape
    bs = broadcast_shapes([tuple(out_shape), val.shape])
    if len(bs) != len(out_shape) or not all(dim_eq(x, y) for x, y in zip(bs, out_shape)):
        raise PyError("ValueError", f"Incompatible shapes for scatter: {val.shape} into {tuple(out_shape)}")

    def fn(*idx):
        sub = []
        for i, sp in zip(idx, specs):
            if sp[0] == "c":
                d = add(lift(i), neg(lift(sp[1])))
                if not ctx().decide(d, lambda s: s == 0):
                    return a.get(idx)
            elif sp[0] == "p":
                j = perm_inverse(sp[1], i)
                if j is None:
                    return a.get(idx)
                sub.append(j)
            else:
                j = sp[1].inverse(i)
                if j is None:
                    return a.get(idx)
                sub.append(j)
        v = val.get(bidx(tuple(sub), val.shape))
        if op == "set":
            return v
        if op == "add":
            return add(num(a.get(idx)), num(v))
        if op == "multiply":
            return mul(num(a.get(idx)), num(v))
        raise Unsupported("scatter op " + op)
    return lazy(a.shape, fn, kind=a.kind)


def perm_inverse(p, i):
    h = ctx().hooks.get("perm_inverse")
    if p.concrete:
        vals = [dim_norm(v) if isinstance(v, S) else v for v in p.force()]
        hits = []
        for j, v in enumerate(vals):
            d = add(lift(i), neg(lift(v)))
            if ctx().decide(d, lambda s: s == 0):
                hits.append(j)
        return hits[-1] if hits else None
    if h is None:
        raise Unsupported("scatter through an index array")
    return h(p, i)


# ------------------------------------------------------------------ structure
def transpose(a, axes=None):
    axes = tuple(reversed(range(a.ndim))) if axes is None else tuple(int(x) % a.ndim for x in axes)
    if a.data is not None:
        return from_np(np.transpose(a.data, axes), a.kind)
    shape = tuple(a.shape[x] for x in axes)

    def fn(*idx):
        src = [None] * len(axes)
        for o, x in enumerate(axes):
            src[x] = idx[o]
        return a.get(tuple(src))
    return lazy(shape, fn, a.kind)


def expand(a, ax):
    ax = ax % (a.ndim + 1) if ax >= 0 else ax + a.ndim + 1
    it = [slice(None)] * a.ndim
    it.insert(ax, None)
    return getitem(a, tuple(it))


def squeeze(a, axis=None):
    if axis is None:
        keep = [i for i, d in enumerate(a.shape) if not (isinstance(d, int) and d == 1)]
    else:
        axs = [axis] if isinstance(axis, int) else list(axis)
        axs = [x % a.ndim for x in axs]
        for x in axs:
            if not (isinstance(a.shape[x], int) and a.shape[x] == 1):
                raise PyError("ValueError", "cannot select an axis to squeeze out which has size not equal to one")
        keep = [i for i in range(a.ndim) if i not in axs]

    def fn(*idx):
        src = [0] * a.ndim
        for o, x in enumerate(keep):
            src[x] = idx[o]
        return a.get(tuple(src))
    return lazy(tuple(a.shape[i] for i in keep), fn, a.kind)


def size_of(shape):
    r = const(1)
    for d in shape:
        r = mul(lift(d), r)
    return dim_norm(r)


def reshape(a, shape):
    shape = [dim_norm(x) for x in shape]
    if -1 in [x for x in shape if isinstance(x, int)]:
        k = next(i for i, x in enumerate(shape) if isinstance(x, int) and x == -1)
        rest = size_of([x for i, x in enumerate(shape) if i != k])
        tot = size_of(a.shape)
        if isinstance(tot, int) and isinstance(rest, int):
            shape[k] = tot // rest
        elif isinstance(rest, int) and isinstance(tot, S):
            shape[k] = floordiv(tot, rest)
        else:
            shape[k] = dim_norm(mul(lift(tot), inv(lift(rest))))
            m = [d for d in a.shape if isinstance(d, S)]
            if isinstance(shape[k], S):
                f = [d for d in m if d.key == shape[k].key]
                if f:
                    shape[k] = f[0]
                elif shape[k].key == const(1).key:
                    shape[k] = 1
    if a.concrete and all(isinstance(x, int) for x in shape):
        try:
            return from_np(a.force().reshape(shape), a.kind)
        except ValueError as e:
            raise PyError("TypeError", str(e))
    # symbolic: allow insertion/removal of unit axes, and (2,N)/(N,2)-style ravel
    nz = [(i, d) for i, d in enumerate(a.shape) if not (isinstance(d, int) and d == 1)]
    nt = [(i, d) for i, d in enumerate(shape) if not (isinstance(d, int) and d == 1)]
    if len(nz) == len(nt) and all(dim_eq(x[1], y[1]) for x, y in zip(nz, nt)):
        def fn(*idx):
            src = [0] * a.ndim
            for (i, _), (o, _) in zip(nz, nt):
                src[i] = idx[o]
            return a.get(tuple(src))
        return lazy(shape, fn, a.kind)
    # collapse a trailing literal axis: (N, m) -> (N*m,)
    if len(nt) == 1 and len(nz) == 2 and isinstance(nz[1][1], int):
        m = nz[1][1]

        def fn(*idx):
            i = idx[nt[0][0]]
            src = [0] * a.ndim
            q, r = floordiv(i, m), mod(i, m)
            if not isinstance(r, int):
                raise Unsupported("reshape: position within an interleaved axis is not known")
            src[nz[0][0]], src[nz[1][0]] = q, r
            return a.get(tuple(src))
        return lazy(shape, fn, a.kind)
    if len(nt) == 1 and len(nz) == 2 and isinstance(nz[0][1], int):
        m, n = nz[0][1], nz[1][1]

        def fn(*idx):
            i = lift(idx[nt[0][0]])
            src = [0] * a.ndim
            for r in range(m):
                hi = add(i, neg(mul(const(r + 1), lift(n))))
                if ctx().decide(hi, lambda s: s < 0):
                    src[nz[0][0]] = r
                    src[nz[1][0]] = dim_norm(add(i, neg(mul(const(r), lift(n)))))
                    return a.get(tuple(src))
            raise Unsupported("reshape index out of range")
        return lazy(shape, fn, a.kind)
    # split (N*m,) -> (N, m)
    if len(nz) == 1 and len(nt) == 2 and isinstance(nt[1][1], int):
        m = nt[1][1]

        def fn(*idx):
            src = [0] * a.ndim
            src[nz[0][0]] = dim_norm(add(mul(const(m), lift(idx[nt[0][0]])), lift(idx[nt[1][0]])))
            return a.get(tuple(src))
        return lazy(shape, fn, a.kind)
    raise Unsupported(f"reshape {a.shape} -> {tuple(shape)}")


def concatenate(xs, axis=0):
    xs = [asarr(x) for x in xs]
    nd = xs[0].ndim
    if nd == 0:
        raise PyError("ValueError", "Zero-dimensional arrays cannot be concatenated.")
    axis = axis % nd
    for x in xs:
        if x.ndim != nd:
            raise PyError("TypeError", "concatenate: arrays must have the same number of dimensions")
        for i in range(nd):
            if i != axis and not dim_eq(x.shape[i], xs[0].shape[i]):
                raise PyError("TypeError", f"concatenate: shapes {[z.shape for z in xs]}")
    tot = const(0)
    starts = []
    for x in xs:
        starts.append(dim_norm(tot))
        tot = add(tot, lift(x.shape[axis]))
    shape = list(xs[0].shape)
    shape[axis] = dim_norm(tot)

    def fn(*idx):
        i = lift(idx[axis])
        for j, x in enumerate(xs):
            end = dim_norm(add(lift(starts[j]), lift(x.shape[axis])))
            if isinstance(x.shape[axis], int) and x.shape[axis] == 0:
                continue
            if j == len(xs) - 1 or ctx().decide(add(i, neg(lift(end))), lambda s: s < 0):
                src = list(idx)
                src[axis] = dim_norm(add(i, neg(lift(starts[j]))))
                return x.get(tuple(src))
        raise Unsupported("concatenate of nothing")
    kind = "b" if all(x.kind == "b" for x in xs) else "f"
    return lazy(shape, fn, kind)


def stack(xs, axis=0):
    xs = [asarr(x) for x in xs]
    if not xs:
        return Arr((0,), data=np.empty((0,), dtype=object))
    for x in xs[1:]:
        if x.ndim != xs[0].ndim or not all(dim_eq(p, q) for p, q in zip(x.shape, xs[0].shape)):
            raise PyError("ValueError", f"all input arrays must have the same shape {[z.shape for z in xs]}")
    nd = xs[0].ndim + 1
    axis = axis % nd
    shape = list(xs[0].shape)
    shape.insert(axis, len(xs))
    kind = "b" if all(x.kind == "b" for x in xs) else "f"

    def fn(*idx):
        i = idx[axis]
        rest = idx[:axis] + idx[axis + 1:]
        if isinstance(i, int):
            return xs[i].get(rest)
        c = [x.get(rest) for x in xs]
        if all(_same(z, c[0]) for z in c):
            return c[0]
        return uninterp("gather", i, *c)
    return lazy(shape, fn, kind)


def full(shape, v):
    v = scal(v)
    return lazy(shape, lambda *i: v, "b" if isinstance(v, bool) else "f")


def eye(n, m=None, k=0):
    m = n if m is None else m
    n, m = dim_norm(n), dim_norm(m)
    if isinstance(n, int) and isinstance(m, int):
        return lazy((n, m), lambda i, j: const(1 if j - i == k else 0))
    return Arr((n, m), fn=lambda i, j: const(1) if ctx().decide(
        add(add(lift(i), neg(lift(j))), const(k)), lambda s: s == 0) else const(0), tag="eye")


def arange(start, stop, step=1):
    def fn(i):
        return add(lift(start), mul(lift(step), lift(i)))
    st = dim_norm(step)
    ln = add(lift(stop), neg(lift(start)))
    if not isinstance(st, int):
        raise Unsupported("arange step")
    c = ln.const()
    if c is not None:
        import math
        size = max(0, math.ceil(Fraction(c) / st))
    else:
        if st < 0:
            ln = neg(ln)
        m = abs(st)
        size = dim_norm(ln) if m == 1 else floordiv(add(ln, const(m - 1)), m)
    return lazy((size,), fn)


def symbolic_sum(n, body):
    """sum over a symbolic extent: a random linear functional of the summand.

    The two sample positions stand for arbitrary positions; the weights add up
    to the extent so that constants sum correctly.
    """
    n = lift(n)
    w = atom("sumw", n.key)
    i1, i2 = gen_index(n, 1), gen_index(n, 2)
    a, b = body(i1), body(i2)
    return add(mul(w, a), mul(add(n, neg(w)), b))


def gen_index(n, j):
    """generic interior position number j of an axis of extent n"""
    nm = ("iota", lift(n).key, j)
    c = ctx()
    if nm not in c.subst:
        # interior: 10 <= iota ; n - iota >= 10   (n itself = iota + 10 + slack is not imposed:
        # differences with n are decided through the decision table)
        c.subst[nm] = {nm + ("lo",): 1, None: 10}
        d = add(lift(n), neg(atom(*nm, aff=True)))
        for off in range(-6, 7):
            c.facts[add(d, const(off)).key] = {1}
            c.facts[neg(add(d, const(off))).key] = {-1}
    return atom(*nm, aff=True)


def reduce_sum(a, axis=None, keepdims=False):
    if a.kind == "b":
        a = elementwise(num, a)
    if axis is None:
        for _ in range(a.ndim):
            a = reduce_sum(a, 0)
        return a
    if isinstance(axis, (tuple, list)):
        for x in sorted([x % a.ndim for x in axis], reverse=True):
            a = reduce_sum(a, x, keepdims)
        return a
    axis = axis % a.ndim
    n = a.shape[axis]
    shape = a.shape[:axis] + ((1,) if keepdims else ()) + a.shape[axis + 1:]

    def fn(*idx):
        rest_l = idx[:axis]
        rest_r = idx[axis + 1:] if keepdims else idx[axis:]
        if isinstance(n, int):
            tot = const(0)
            for j in range(n):
                tot = add(tot, a.get(rest_l + (j,) + rest_r))
            return tot
        return symbolic_sum(n, lambda i: a.get(rest_l + (i,) + rest_r))
    return lazy(shape, fn)


def matmul(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise PyError("ValueError", "matmul: input operand does not have enough dimensions")
    va, vb = a.ndim == 1, b.ndim == 1
    if va:
        a = expand(a, 0)
    if vb:
        b = expand(b, 1)
    if not dim_eq(a.shape[-1], b.shape[-2]):
        raise PyError("TypeError", f"dot_general requires contracting dimensions to have the same shape, got {a.shape} and {b.shape}")
    n = a.shape[-1]
    bsh = broadcast_shapes([a.shape[:-2], b.shape[:-2]]) if (a.ndim > 2 or b.ndim > 2) else ()
    shape = bsh + (a.shape[-2], b.shape[-1])
    na, nb = a.ndim - 2, b.ndim - 2

    def fn(*idx):
        bi = idx[:-2]
        i, j = idx[-2], idx[-1]
        ia = bidx(bi, a.shape[:-2]) if na else ()
        ib = bidx(bi, b.shape[:-2]) if nb else ()
        if isinstance(n, int):
            tot = const(0)
            for k in range(n):
                x = num(a.get(ia + (i, k)))
                if x.op == "const" and x.args[0] == 0:
                    continue
                y = num(b.get(ib + (k, j)))
                if y.op == "const" and y.args[0] == 0:
                    continue
                tot = add(tot, mul(x, y))
            return tot
        return symbolic_sum(n, lambda k: mul(num(a.get(ia + (i, k))), num(b.get(ib + (k, j)))))
    r = lazy(shape, fn)
    if va:
        r = getitem(r, (Ellipsis, 0, slice(None)))
    if vb:
        r = getitem(r, (Ellipsis, 0))
    return r


def kron(a, b):
    a, b = asarr(a), asarr(b)
    while a.ndim < b.ndim:
        a = expand(a, 0)
    while b.ndim < a.ndim:
        b = expand(b, 0)
    A, B = a.force(), b.force()
    shape = tuple(x * y for x, y in zip(A.shape, B.shape))

    def fn(*idx):
        return mul(num(A[tuple(i // d for i, d in zip(idx, B.shape))]),
                   num(B[tuple(i % d for i, d in zip(idx, B.shape))]))
    return lazy(shape, fn)


# ------------------------------------------------------------------ linear algebra
def batchify(f, nd, *xs):
    """apply f to trailing nd-dimensional blocks"""
    raise NotImplementedError


def mat_inv_np(M):
    """inverse of an object matrix of scalars; result entries are 'inv_ij' nodes"""
    n = M.shape[0]
    if M.shape != (n, n):
        raise PyError("ValueError", f"inverse of a non-square matrix {M.shape}")
    if n == 1:
        d = np.empty((1, 1), dtype=object)
        if M[0, 0].iszero:
            raise SingularMatrix()
        d[0, 0] = inv(M[0, 0])
        return d
    if any(x.op == "cx" for x in M.flat):
        B = np.empty((2 * n, 2 * n), dtype=object)      # A + iB as the real matrix [[A, -B], [B, A]]
        for i in range(n):
            for j in range(n):
                B[i, j] = B[n + i, n + j] = N.real(M[i, j])
                B[n + i, j] = N.imag(M[i, j])
                B[i, n + j] = neg(N.imag(M[i, j]))
        B = mat_inv_np(B)
        d = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                d[i, j] = N.cx(B[i, j], B[n + i, j])
        return d
    if all(len(x.p) == 1 for x in M.flat):
        sols = []
        for comp, p in (("p", P), ("q1", Q1), ("q2", Q2)):
            A = [[(M[i, j].p[0] if comp == "p" else getattr(M[i, j], comp)) for j in range(n)] for i in range(n)]
            try:
                sols.append(_modinv(A, p))
            except ZeroDivisionError:
                if comp == "p":
                    raise SingularMatrix()
                sols.append([[0] * n for _ in range(n)])
        args = tuple(M.flat)
        d = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                d[i, j] = S((sols[0][i][j],), sols[1][i][j], sols[2][i][j], f"inv[{i},{j}]", args)
        return d
    # power-series entries: Gauss-Jordan with scalar nodes
    A = [[M[i, j] for j in range(n)] + [const(1 if i == j else 0) for j in range(n)] for i in range(n)]
    for c in range(n):
        piv = next((r for r in range(c, n) if A[r][c].p[0] != 0), None)
        if piv is None:
            raise SingularMatrix()
        A[c], A[piv] = A[piv], A[c]
        iv = inv(A[c][c])
        A[c] = [mul(iv, x) for x in A[c]]
        for r in range(n):
            if r != c and not A[r][c].iszero:
                f = A[r][c]
                A[r] = [add(x, neg(mul(f, y))) for x, y in zip(A[r], A[c])]
    d = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            d[i, j] = A[i][n + j]
    return d


class SingularMatrix(Exception):
    pass


def _modinv(A, p):
    n = len(A)
    A = [list(r) + [1 if i == j else 0 for j in range(n)] for i, r in enumerate(A)]
    for c in range(n):
        piv = next((r for r in range(c, n) if A[r][c] % p), None)
        if piv is None:
            raise ZeroDivisionError
        A[c], A[piv] = A[piv], A[c]
        iv = pow(A[c][c], -1, p)
        A[c] = [x * iv % p for x in A[c]]
        for r in range(n):
            if r != c and A[r][c]:
                f = A[r][c]
                A[r] = [(x - f * y) % p for x, y in zip(A[r], A[c])]
    return [r[n:] for r in A]


def slicelast(a, bi, nd):
    """trailing nd axes at batch index bi as a concrete object array"""
    sh = a.shape[a.ndim - nd:]
    d = np.empty(sh, dtype=object)
    for idx in itertools.product(*[range(n) for n in sh]):
        d[idx] = num(a.get(tuple(bi) + idx))
    return d


def linv(a):
    a = asarr(a)
    if a.ndim < 2:
        raise PyError("ValueError", "inv: argument must be at least 2-dimensional")
    if a.concrete and a.ndim == 2:
        return from_np(mat_inv_np(slicelast(a, (), 2)))
    cache = {}

    def fn(*idx):
        bi = idx[:-2]
        k = tuple(idx_key(i) for i in bi)
        if (None, k) in cache:
            return cache[(None, k)][idx[-2:]]
        k = (ctx().token, k)
        if k not in cache:
            cache[k] = mat_inv_np(slicelast(a, bi, 2))
        return cache[k][idx[-2:]]
    return lazy(a.shape, fn)


def solve(a, b):
    a, b = asarr(a), asarr(b)
    if b.ndim == 1:
        return matmul(linv(a), b)
    return matmul(linv(a), b)


def det_np(M):
    n = M.shape[0]
    if n == 1:
        return M[0, 0]
    if n == 2:
        return add(mul(M[0, 0], M[1, 1]), neg(mul(M[0, 1], M[1, 0])))
    tot = const(0)
    for j in range(n):
        sub = np.delete(np.delete(M, 0, 0), j, 1)
        t = mul(M[0, j], det_np(sub))
        tot = add(tot, t if j % 2 == 0 else neg(t))
    return tot


def expm_np(M):
    """matrix exponential of C*dt : exact power series in the lag variable"""
    n = M.shape[0]
    if all(x.iszero for x in M.flat):
        d = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                d[i, j] = const(1 if i == j else 0)
        return d
    # zero pattern (reachability) gives structural zeros
    reach = np.eye(n, dtype=bool)
    adj = np.array([[not M[i, j].iszero for j in range(n)] for i in range(n)])
    for _ in range(n):
        reach = reach | (reach @ adj)
    if any(x.p[0] != 0 for x in M.flat):
        # exponential of a constant matrix: uninterpreted
        d = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                d[i, j] = uninterp(f"expm[{i},{j}]", *M.flat) if reach[i, j] else const(0)
        return d
    # M = dt * C(dt) ; sum_k M^k / k! to order KSER
    cur = [[((1,) if i == j else (0,)) for j in range(n)] for i in range(n)]
    tot = [[cur[i][j] for j in range(n)] for i in range(n)]
    linear = all(len(x.p) <= 2 for x in M.flat)
    if linear:
        # fast path: powers of a constant matrix
        C = [[(M[i, j].p[1] if len(M[i, j].p) > 1 else 0) for j in range(n)] for i in range(n)]
        W = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
        ser = [[[W[i][j]] for j in range(n)] for i in range(n)]
        for k in range(1, KSER):
            W = [[sum(W[i][l] * C[l][j] for l in range(n)) % P for j in range(n)] for i in range(n)]
            for i in range(n):
                for j in range(n):
                    ser[i][j].append(W[i][j] * _fact_inv[k] % P)
        tot = [[_strip(ser[i][j]) for j in range(n)] for i in range(n)]
    else:
        for k in range(1, KSER):
            nxt = [[(0,)] * n for _ in range(n)]
            ik = pow(k, -1, P)
            for i in range(n):
                for j in range(n):
                    acc = (0,)
                    for l in range(n):
                        if cur[i][l] != (0,) and not M[l, j].iszero:
                            acc = _padd(acc, _pmul(cur[i][l], M[l, j].p))
                    nxt[i][j] = tuple(x * ik % P for x in acc)
            cur = nxt
            tot = [[_padd(tot[i][j], cur[i][j]) for j in range(n)] for i in range(n)]
    d = np.empty((n, n), dtype=object)
    args = tuple(M.flat)
    for i in range(n):
        for j in range(n):
            if not reach[i, j]:
                d[i, j] = const(0)
            else:
                d[i, j] = S(tuple(tot[i][j]), 1 if i == j else 0, 1 if i == j else 0, f"expm[{i},{j}]", args)
    return d


def _strip(l):
    l = list(l)
    while len(l) > 1 and l[-1] == 0:
        l.pop()
    return tuple(l)
