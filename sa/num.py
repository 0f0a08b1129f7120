"""Scalar abstract domain: value numbers by algebraic signature.

Every scalar the analysed program can compute is represented by a node of a
value graph (operator + operand nodes, with the source construct that built
it).  Two nodes denote the same function of the program's inputs iff their
normal forms agree; equality of normal forms is decided by *signatures*
(Gonnet 1984; Monagan's `testeq`; Gulwani & Necula's random interpretation for
global value numbering): the image of the node under a ring homomorphism from
the field of rational expressions into F_P.  The homomorphism extends to
exp/sinh/cosh (through a subgroup of order Q1 of F_P*), to sin/cos (through the
norm-1 subgroup of order Q2 of F_P^2) and to sqrt (the root that is itself a
square; "positive" quantities are mapped to squares).  Equal expressions always
get equal signatures (so an equality is never missed); different expressions
collide with probability about degree/2^61.

Nodes may be truncated power series in one distinguished variable (the time
lag), with exact (mod P) coefficients; that is how matrix exponentials are
treated.
"""
from __future__ import annotations
import hashlib
from fractions import Fraction

P = 73091785737236923982504543393920279555799
Q1 = 1791744115541834999
Q2 = 1511294042976482519
KSER = 48


class Unsupported(Exception):
    """the analysis met a construct it has no model for (analysis incomplete)"""


class Resample(Exception):
    """a quantity has no square root under the current homomorphism; `atom` is an input to redraw"""
    atom = None


class NeedSplit(Exception):
    def __init__(self, key, allowed, desc):
        super().__init__(desc)
        self.key, self.allowed, self.desc = key, allowed, desc


SEED = ["0"]
SALT = {}           # atom -> redraw counter
ROOTED = set()      # atoms below quantities whose square root was taken in this attempt


def hrand(*key):
    h = hashlib.sha512(repr((SEED[0],) + key).encode()).digest()
    h2 = hashlib.sha256(h).digest()
    return (int.from_bytes(h[:32], "big") % P,
            int.from_bytes(h[32:], "big") % Q1,
            int.from_bytes(h2, "big") % Q2)


def _isqr(a, p):
    return pow(a, (p - 1) // 2, p) == 1


def _sqrt(a, p):
    if a == 0:
        return 0
    if not _isqr(a, p):
        raise Resample()
    return pow(a, (p + 1) // 4, p)


_gcache = {}


def _exp_gen():
    k = ("g", SEED[0])
    if k not in _gcache:
        z = hrand("expgen")[0]
        _gcache[k] = pow(z, (P - 1) // Q1, P)
    return _gcache[k]


def cmul(a, b):
    return ((a[0] * b[0] - a[1] * b[1]) % P, (a[0] * b[1] + a[1] * b[0]) % P)


def cpow(u, e):
    r = (1, 0)
    while e:
        if e & 1:
            r = cmul(r, u)
        u = cmul(u, u)
        e >>= 1
    return r


def _rot_gen():
    k = ("u", SEED[0])
    if k not in _gcache:
        a, b = hrand("rot1")[0], hrand("rot2")[0]
        n = pow((a * a + b * b) % P, -1, P)
        # z / conj(z)
        u = ((a * a - b * b) * n % P, 2 * a * b * n % P)
        _gcache[k] = cpow(u, (P + 1) // Q2)
    return _gcache[k]


# ---------------------------------------------------------------- intervals
INF = float("inf")


class Iv:
    __slots__ = ("lo", "hi", "lo_o", "hi_o", "nz")

    def __init__(s, lo=-INF, hi=INF, lo_o=True, hi_o=True, nz=False):
        s.lo, s.hi, s.lo_o, s.hi_o, s.nz = lo, hi, lo_o, hi_o, nz

    def signs(s):
        r = set()
        if s.lo < 0:
            r.add(-1)
        if s.hi > 0:
            r.add(1)
        zero_ok = (s.lo < 0 or (s.lo == 0 and not s.lo_o)) and (s.hi > 0 or (s.hi == 0 and not s.hi_o))
        if zero_ok and not s.nz:
            r.add(0)
        return r


def iv_const(c):
    return Iv(c, c, False, False)


def iv_add(a, b):
    lo, hi = a.lo + b.lo, a.hi + b.hi
    if lo != lo:
        lo = -INF
    if hi != hi:
        hi = INF
    return Iv(lo, hi, a.lo_o or b.lo_o, a.hi_o or b.hi_o)


def _m(x, xo, y, yo):
    if x == 0 or y == 0:
        # 0*inf -> 0 (closed only if the zero is attained)
        op = (xo if x == 0 else True) and (yo if y == 0 else True)
        if x == 0 and not xo:
            op = False
        if y == 0 and not yo:
            op = False
        return (0, op)
    return (x * y, xo or yo)


def iv_mul(a, b):
    c = [_m(a.lo, a.lo_o, b.lo, b.lo_o), _m(a.lo, a.lo_o, b.hi, b.hi_o),
         _m(a.hi, a.hi_o, b.lo, b.lo_o), _m(a.hi, a.hi_o, b.hi, b.hi_o)]
    lo = min(x[0] for x in c)
    hi = max(x[0] for x in c)
    lo_o = all(x[1] for x in c if x[0] == lo)
    hi_o = all(x[1] for x in c if x[0] == hi)
    sa, sb = a.signs(), b.signs()
    nz = 0 not in sa and 0 not in sb
    return Iv(lo, hi, lo_o, hi_o, nz)


def iv_neg(a):
    return Iv(-a.hi, -a.lo, a.hi_o, a.lo_o, a.nz)


def iv_inv(a):
    s = a.signs()
    if s == {1}:
        lo = 0 if a.hi == INF else Fraction(1) / a.hi if not isinstance(a.hi, float) else 1 / a.hi
        hi = INF if a.lo == 0 else Fraction(1) / a.lo if not isinstance(a.lo, float) else 1 / a.lo
        return Iv(lo, hi, a.hi_o or a.hi == INF, a.lo_o or a.lo == 0, True)
    if s == {-1}:
        return iv_neg(iv_inv(iv_neg(a)))
    return Iv(nz=True)


def iv_abs(a):
    if a.lo >= 0:
        return a
    if a.hi <= 0:
        return iv_neg(a)
    return Iv(0, max(-a.lo, a.hi), 0 not in a.signs(), True, a.nz)


# ---------------------------------------------------------------- scalars
class S:
    __slots__ = ("p", "q1", "q2", "op", "args", "_iv", "aff", "_key", "lf", "loc", "integral")
    shape = ()
    ndim = 0

    def __init__(s, p, q1, q2, op, args, aff=None, iv=None, lf=None, integral=False):
        s.p, s.q1, s.q2, s.op, s.args, s.aff, s._iv = p, q1, q2, op, args, aff, iv
        s._key = None
        s.lf = lf
        s.loc = None
        s.integral = integral

    # ---- identity
    @property
    def key(s):
        if s._key is None:
            p = s.p
            n = len(p)
            while n > 1 and p[n - 1] == 0:
                n -= 1
            s._key = p[:n] if n > 1 else p[0]
        return s._key

    def same(s, o):
        return s.key == o.key

    @property
    def iszero(s):
        return s.key == 0

    def const(s):
        """exact rational value if this node is a literal constant"""
        if s.op == "const":
            return s.args[0]
        return None

    def aconst(s):
        if s.aff is not None and all(k is None or v == 0 for k, v in s.aff.items()):
            return s.aff.get(None, 0)
        c = s.const()
        if c is not None and Fraction(c).denominator == 1:
            return int(c)
        return None

    @property
    def iv(s):
        if s._iv is None:
            s._iv = _interval(s)
        return s._iv

    # ---- arithmetic
    def __add__(a, b):
        b = lift(b)
        if b is NotImplemented:
            return b
        return add(a, b)

    __radd__ = __add__

    def __sub__(a, b):
        return add(a, neg(lift(b)))

    def __rsub__(a, b):
        return add(lift(b), neg(a))

    def __mul__(a, b):
        b = lift(b)
        if b is NotImplemented:
            return b
        return mul(a, b)

    __rmul__ = __mul__

    def __neg__(a):
        return neg(a)

    def __truediv__(a, b):
        return mul(a, inv(lift(b)))

    def __rtruediv__(a, b):
        return mul(lift(b), inv(a))

    def __repr__(s):
        return show(s)


def affkeys(aff):
    return {k: v for k, v in aff.items() if v != 0}


_constcache = {}


def const(c):
    if type(c) is int:
        r = _constcache.get((SEED[0], c))
        if r is not None:
            return r
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, float):
        c = Fraction(repr(c)) if c == c and abs(c) != INF else _bad(c)
    if isinstance(c, Fraction) and c.denominator == 1:
        c = int(c)
    k = (SEED[0], c)
    r = _constcache.get(k)
    if r is None:
        f = Fraction(c)
        n, d = f.numerator, f.denominator
        r = S((n * pow(d, -1, P) % P,), n * pow(d, -1, Q1) % Q1, n * pow(d, -1, Q2) % Q2,
              "const", (c,), aff={None: int(c)} if f.denominator == 1 else None, iv=iv_const(f),
              integral=f.denominator == 1)
        _constcache[k] = r
    return r


def _bad(c):
    raise Unsupported(f"non-finite constant {c}")


def lift(x):
    if isinstance(x, S):
        return x
    if isinstance(x, (int, float, Fraction)):
        return const(x)
    if isinstance(x, complex):
        return cx(const(x.real), const(x.imag))
    return NotImplemented


def atom(name, *keys, iv=None, positive=False, aff=False, integral=False):
    """a free input of the program (parameter, datum, matrix entry ...)"""
    nm = (name,) + tuple(keys)
    a, b, c = hrand("atom", *nm) if nm not in SALT else hrand("atom", *nm, "salt", SALT[nm])
    if positive:
        a, b, c = a * a % P, b * b % Q1, c * c % Q2
        iv = iv or Iv(0, INF, True, True)
    s = S((a,), b, c, "atom", nm, iv=iv or Iv())
    if aff:
        s.aff = {nm: 1}
        s.integral = True
    if integral:
        s.integral = True
    return s


def lag(name="dt"):
    """the distinguished series variable (positive)"""
    return S((0, 1), 0, 0, "atom", (name,), iv=Iv(0, INF, True, True))


def _padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    return tuple([(x + y) % P for x, y in zip(a, b)]) + a[len(b):]


def _pmul(a, b):
    la, lb = len(a), len(b)
    if la == 1:
        if lb == 1:
            return (a[0] * b[0] % P,)
        c = a[0]
        if c == 0:
            return (0,)
        return tuple([c * y % P for y in b])
    if lb == 1:
        return _pmul(b, a)
    n = min(la + lb - 1, KSER)
    out = [0] * n
    for i, x in enumerate(a):
        if x == 0:
            continue
        m = n - i
        for j in range(min(lb, m)):
            out[i + j] += x * b[j]
    out = [v % P for v in out]
    while len(out) > 1 and out[-1] == 0:
        out.pop()
    return tuple(out)


def cx(re, im):
    """a complex number: a pair of reals (its own key only serves identity)"""
    if im.iszero:
        return re
    a, b, c = hrand("imaginary unit")
    m = mul(S((a,), b, c, "iu", ()), im)
    return S(_padd(re.p, m.p), (re.q1 + m.q1) % Q1, (re.q2 + m.q2) % Q2, "cx", (re, im))


def real(a):
    return a.args[0] if a.op == "cx" else a


def imag(a):
    return a.args[1] if a.op == "cx" else const(0)


def conj(a):
    return cx(a.args[0], neg(a.args[1])) if a.op == "cx" else a


def add(a, b):
    if a.op == "const" and a.args[0] == 0:
        return b
    if b.op == "const" and b.args[0] == 0:
        return a
    if a.op == "cx" or b.op == "cx":
        return cx(add(real(a), real(b)), add(imag(a), imag(b)))
    if a.op == "const" and b.op == "const":
        return const(Fraction(a.args[0]) + Fraction(b.args[0]))
    aff = None
    if a.aff is not None and b.aff is not None:
        aff = dict(a.aff)
        for k, v in b.aff.items():
            aff[k] = aff.get(k, 0) + v
    lf = None
    if a.lf is not None or b.lf is not None:
        la, ra = a.lf if a.lf is not None else ({}, a)
        lb, rb = b.lf if b.lf is not None else ({}, b)
        d = dict(la)
        for k, (x, c) in lb.items():
            d[k] = (x, d[k][1] + c) if k in d else (x, c)
        lf = (d, add(ra, rb))
    return S(_padd(a.p, b.p), (a.q1 + b.q1) % Q1, (a.q2 + b.q2) % Q2, "add", (a, b), aff, lf=lf,
             integral=a.integral and b.integral)


def neg(a):
    return mul(const(-1), a)


def mul(a, b):
    if b.op == "const":
        a, b = b, a
    if a.op == "const":
        ca = a.args[0]
        if ca == 1:
            return b
        if ca == 0:
            return a
        if b.op == "const":
            return const(Fraction(ca) * Fraction(b.args[0]))
    if a.op == "cx" or b.op == "cx":
        (ar, ai), (br, bi) = (real(a), imag(a)), (real(b), imag(b))
        return cx(add(mul(ar, br), neg(mul(ai, bi))), add(mul(ar, bi), mul(ai, br)))
    aff = None
    lf = None
    if a.op == "const" or a.aconst() is not None:
        c = a.aconst() if a.aconst() is not None else a.args[0]
        if b.aff is not None and isinstance(c, int):
            aff = {k: v * c for k, v in b.aff.items()}
        if b.lf is not None:
            lf = ({k: (x, e * c) for k, (x, e) in b.lf[0].items()}, mul(a, b.lf[1]))
    elif b.aconst() is not None:
        c = b.aconst()
        if a.aff is not None:
            aff = {k: v * c for k, v in a.aff.items()}
        if a.lf is not None:
            lf = ({k: (x, e * c) for k, (x, e) in a.lf[0].items()}, mul(b, a.lf[1]))
    return S(_pmul(a.p, b.p), a.q1 * b.q1 % Q1, a.q2 * b.q2 % Q2, "mul", (a, b), aff, lf=lf,
             integral=a.integral and b.integral)


def _pinv(a):
    if a[0] == 0:
        raise ZeroDivisionError
    i0 = pow(a[0], -1, P)
    if len(a) == 1:
        return (i0,)
    out = [i0]
    for n in range(1, KSER):
        acc = 0
        for k in range(1, min(n, len(a) - 1) + 1):
            acc += a[k] * out[n - k]
        out.append(-acc * i0 % P)
    while len(out) > 1 and out[-1] == 0:
        out.pop()
    return tuple(out)


def inv(a):
    if a.op == "const":
        if a.args[0] == 0:
            raise ZeroDivisionError("division by literal zero")
        return const(Fraction(1) / Fraction(a.args[0]))
    if a.iszero:
        raise ZeroDivisionError("division by an expression that is identically zero")
    if a.op == "cx":
        n = inv(add(mul(a.args[0], a.args[0]), mul(a.args[1], a.args[1])))
        return cx(mul(a.args[0], n), neg(mul(a.args[1], n)))
    if a.p[0] == 0:
        # a = dt^v * unit : not invertible in the series ring
        raise Unsupported("division by a quantity that vanishes at zero lag: " + show(a))
    q1 = pow(a.q1, -1, Q1) if a.q1 % Q1 else 0
    q2 = pow(a.q2, -1, Q2) if a.q2 % Q2 else 0
    if a.op == "inv":
        return a.args[0]
    return S(_pinv(a.p), q1, q2, "inv", (a,))


def ipow(a, n):
    n = int(n)
    if a.op == "const":
        return const(Fraction(a.args[0]) ** n)
    if n == 0:
        return const(1)
    if n < 0:
        return inv(ipow(a, -n))
    if n == 1:
        return a
    r = None
    b = a
    e = n
    while e:
        if e & 1:
            r = b if r is None else mul(r, b)
        e >>= 1
        if e:
            b = mul(b, b)
    if r.op == "cx" or a.op == "cx":
        return r
    return S(r.p, r.q1, r.q2, "pow", (a, n), integral=a.integral)


def power(a, b):
    """a ** b"""
    a, b = lift(a), lift(b)
    c = b.const()
    if c is not None:
        c = Fraction(c)
        if c.denominator == 1:
            return ipow(a, int(c))
        if c.denominator == 2:
            return ipow(sqrt(a), c.numerator)
    k = b.aconst()
    if k is not None:
        return ipow(a, k)
    return uninterp("pow", a, b)


def _sqrt_node(a):
    c = a.const()
    if c is not None and c >= 0:
        f = Fraction(c)
        import math
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator:
            return const(Fraction(n, d))
    if a.iszero:
        return const(0)
    if a.op == "pow" and a.args[1] == 2 and a.args[0].iv.signs() <= {0, 1}:
        return a.args[0]
    if len(a.p) > 1:
        # series square root
        r0 = _sqrt(a.p[0], P)
        if r0 == 0:
            raise Unsupported("sqrt of a quantity vanishing at zero lag")
        out = [r0]
        i2 = pow(2 * r0, -1, P)
        for n in range(1, KSER):
            acc = a.p[n] if n < len(a.p) else 0
            for k in range(1, n):
                acc -= out[k] * out[n - k]
            out.append(acc * i2 % P)
        p = tuple(out)
    else:
        p = (_sqrt(a.p[0], P),)
    return S(p, _sqrt(a.q1, Q1), _sqrt(a.q2, Q2), "sqrt", (a,))



def deps(a):
    """free inputs below a node"""
    seen, out, todo = set(), set(), [a]
    while todo:
        x = todo.pop()
        if not isinstance(x, S) or id(x) in seen:
            continue
        seen.add(id(x))
        if x.op == "atom":
            if x.aff is None:
                out.add(x.args)
        else:
            todo.extend(x.args)
    return out


def sqrt(a):
    _noncomplex(a)
    try:
        r = _sqrt_node(a)
    except Resample as e:
        d = {x for x in deps(a) - ROOTED if not str(x[0]).startswith("finfo")}
        if d:
            e.atom = min(d, key=lambda x: (x[0] in ("carry", "prefix"), x[0] != "r", repr(x)))
        raise
    if a.const() is None:
        ROOTED.update(deps(a))
    return r


def uninterp(name, *args):
    for x in args:
        if isinstance(x, S):
            _noncomplex(x)
    """uninterpreted function: equal on equal arguments, nothing else known"""
    ks = tuple(x.key if isinstance(x, S) else x for x in args)
    a, b, c = hrand("fn", name, ks)
    return S((a,), b, c, name, tuple(args), iv=Iv())


def _series_of(coefs, s):
    """sum coefs[k] s^k for a series s without constant term"""
    acc = (coefs[0] % P,)
    pw = (1,)
    for k in range(1, KSER):
        pw = _pmul(pw, s)
        if pw == (0,):
            break
        acc = _padd(acc, tuple([coefs[k] * x % P for x in pw]))
    return acc


_fact_inv = [1]
for _i in range(1, KSER + 2):
    _fact_inv.append(_fact_inv[-1] * pow(_i, -1, P) % P)


def exp(a):
    if a.op == "cx":
        s, c = sincos(a.args[1])
        e = exp(a.args[0])
        return cx(mul(e, c), mul(e, s))
    if a.iszero:
        return const(1)
    if a.lf is not None:
        d, rest = a.lf
        r = exp(rest)
        for k, (x, e) in d.items():
            e = Fraction(e)
            if e == 0:
                continue
            if e.denominator == 1:
                r = mul(r, ipow(x, int(e)))
            elif e.denominator == 2:
                r = mul(r, ipow(sqrt(x), e.numerator))
            else:
                return uninterp("exp", a)
        return r
    c = a.p[0]
    pc = (1,)
    q1, q2 = 1, 1
    if c != 0:
        pc = (pow(_exp_gen(), a.q1, P),)
        _, q1, q2 = hrand("expq", a.key)
        # keep positive quantities square in all components
        q1, q2 = q1 * q1 % Q1, q2 * q2 % Q2
    if len(a.p) > 1:
        s = (0,) + a.p[1:]
        pc = _pmul(pc, _series_of(_fact_inv, s))
    return S(pc, q1, q2, "exp", (a,))


def _trig_const(a):
    return cpow(_rot_gen(), a.q2 % Q2)


def _noncomplex(a):
    if a.op == "cx":
        raise Unsupported("function of a complex number")


def sincos(a):
    _noncomplex(a)
    """returns (sin a, cos a)"""
    if a.iszero:
        return const(0), const(1)
    c = a.p[0]
    s0, c0 = (0,), (1,)
    if c != 0:
        u = _trig_const(a)
        c0, s0 = (u[0],), (u[1],)
    if len(a.p) > 1:
        s = (0,) + a.p[1:]
        sc = [0] * (KSER + 1)
        cc = [0] * (KSER + 1)
        for k in range(KSER + 1):
            if k % 2:
                sc[k] = _fact_inv[k] * (-1) ** (k // 2)
            else:
                cc[k] = _fact_inv[k] * (-1) ** (k // 2)
        ss, cs = _series_of(sc, s), _series_of(cc, s)
        sn = _padd(_pmul(s0, cs), _pmul(c0, ss))
        cn = _padd(_pmul(c0, cs), tuple([(-x) % P for x in _pmul(s0, ss)]))
    else:
        sn, cn = s0, c0
    _, h1, h2 = hrand("sinq", a.key)
    _, g1, g2 = hrand("cosq", a.key)
    one = Iv(-1, 1, False, False)
    if c == 0:
        h1 = h2 = 0
        g1 = g2 = 1
    return (S(sn, h1, h2, "sin", (a,), iv=one), S(cn, g1, g2, "cos", (a,), iv=one))


def sin(a):
    return sincos(a)[0]


def cos(a):
    return sincos(a)[1]


def log(a):
    _noncomplex(a)
    c = a.const()
    if c is not None:
        f = Fraction(c)
        if f == 1:
            return const(0)
        if f > 0:
            return _mklog(_factor(f.numerator, 1) + _factor(f.denominator, -1))
    if a.op == "exp":
        return a.args[0]
    fs, rest = _factors(a, Fraction(1))
    return add(_mklog(fs), rest)


def _factor(n, sgn):
    out = []
    d = 2
    while n > 1 and d < 1000:
        while n % d == 0:
            out.append((const(d), Fraction(sgn)))
            n //= d
        d += 1
    if n > 1:
        out.append((const(n), Fraction(sgn)))
    return out


def _factors(a, e):
    """multiplicative factors of a (bases, exponents) and an additive rest (from exps)"""
    z = const(0)
    if a.op == "const" and Fraction(a.args[0]) > 0:
        f = Fraction(a.args[0])
        return [(b, x * e) for b, x in _factor(f.numerator, 1) + _factor(f.denominator, -1)], z
    if a.op == "mul":
        f1, r1 = _factors(a.args[0], e)
        f2, r2 = _factors(a.args[1], e)
        return f1 + f2, add(r1, r2)
    if a.op == "inv":
        return _factors(a.args[0], -e)
    if a.op == "pow":
        return _factors(a.args[0], e * a.args[1])
    if a.op == "sqrt":
        return _factors(a.args[0], e / 2)
    if a.op == "exp":
        return [], mul(const(e), a.args[0])
    return [(a, e)], z


def _mklog(fs):
    d = {}
    for b, e in fs:
        k = b.key
        d[k] = (b, d[k][1] + e) if k in d else (b, e)
    tot = const(0)
    lf = {}
    for k, (b, e) in sorted(d.items(), key=lambda kv: repr(kv[0])):
        if e == 0:
            continue
        at = uninterp("log", b)
        at.lf = ({k: (b, Fraction(1))}, const(0))
        lf[k] = (b, e)
        tot = add(tot, mul(const(e), at))
    return tot


def _interval(s):
    op, a = s.op, s.args
    if op == "add":
        if s.aff is not None:
            pass
        return iv_add(a[0].iv, a[1].iv)
    if op == "mul":
        if a[0] is a[1] or a[0].key == a[1].key:
            r = iv_abs(a[0].iv)
            return iv_mul(r, r)
        return iv_mul(a[0].iv, a[1].iv)
    if op == "inv":
        return iv_inv(a[0].iv)
    if op == "pow":
        n = a[1]
        b = iv_abs(a[0].iv) if n % 2 == 0 else a[0].iv
        r = iv_const(1)
        for _ in range(n):
            r = iv_mul(r, b)
        return r
    if op == "exp":
        sg = a[0].iv.signs()
        if sg <= {1}:
            return Iv(1, INF, True, True)
        if sg <= {-1}:
            return Iv(0, 1, True, True)
        return Iv(0, INF, True, True)
    if op == "sqrt":
        sg = a[0].iv.signs()
        return Iv(0, INF, 0 not in sg, True)
    return Iv()


PREC = {"add": 1, "mul": 2}


def show(s, depth=5):
    if not isinstance(s, S):
        return str(s)
    op, a = s.op, s.args
    if op == "const":
        return str(a[0])
    if op == "atom":
        return str(a[0]) + ("[" + ",".join(str(x) for x in a[1:]) + "]" if len(a) > 1 else "")
    if depth <= 0:
        return "…"
    if op == "add":
        ts = []

        def fl(x):
            if x.op == "add" and len(ts) < 6:
                fl(x.args[0])
                fl(x.args[1])
            else:
                ts.append(x)
        fl(s)
        txt = " + ".join(show(x, depth - 1) for x in ts[:6])
        return "(" + txt + (" + …" if len(ts) > 6 else "") + ")"
    if op == "mul":
        if a[0].op == "const" and a[0].args[0] == -1:
            return "-" + show(a[1], depth - 1)
        return show(a[0], depth - 1) + "*" + show(a[1], depth - 1)
    if op == "inv":
        return "1/" + show(a[0], depth - 1)
    if op == "pow":
        return show(a[0], depth - 1) + "^" + str(a[1])
    return op + "(" + ", ".join(show(x, depth - 1) for x in a[:4]) + (", …" if len(a) > 4 else "") + ")"


PI = None


def pi():
    a = atom("pi", positive=True)
    return S(a.p, a.q1, a.q2, "atom", ("pi",),
             iv=Iv(Fraction(314159, 100000), Fraction(314160, 100000), True, True))
