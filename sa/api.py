"""Driver: obligations, trace partitioning, evidence and verdicts."""
from __future__ import annotations
import contextlib
import json
import os
import sys
import time
import traceback
from fractions import Fraction

from . import arr as A
from . import num as N
from . import interp as I
from . import models as M
from .arr import Arr, CTX, Context, Infeasible, PyError, SingularMatrix, asarr, ctx
from .num import S, NeedSplit, Resample, Unsupported, add, atom, const, deps, lift, mul, neg, show, Iv

sys.setrecursionlimit(20000)

REPO = os.environ.get("SA_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VERIF = os.environ.get("SA_VERIF") or HERE
SP = "/opt/venv/lib/python3.12/site-packages"
ROOTS = {"smolgp": os.path.join(REPO, "src", "smolgp"), "tinygp": os.path.join(SP, "tinygp")}


def new_interp():
    it = I.Interp(dict(ROOTS))
    for m in ("smolgp", "smolgp.kernels", "smolgp.kernels.integrated", "smolgp.gp"):
        if it.load(m) is None:
            raise AnchorMissing(f"module {m} is not in the tree")
    return it


class AnchorMissing(Exception):
    pass


class Mismatch(Exception):
    """a result whose structure is not the required one: the obligation is violated and ends here"""


class World:
    """one abstract execution: an interpreter plus the context"""

    def __init__(self, it, c):
        self.it, self.c = it, c
        self.mis = []

    def mod(self, name):
        m = self.it.load(name)
        if m is None:
            raise AnchorMissing(f"module {name} is not in the tree")
        return m

    def get(self, dotted):
        parts = dotted.split(".")
        for k in range(len(parts) - 1, 0, -1):
            if self.it.find_module(".".join(parts[:k])):
                o = self.mod(".".join(parts[:k]))
                try:
                    for p in parts[k:]:
                        o = self.it.getattr(o, p)
                except PyError:
                    raise AnchorMissing(f"{dotted} is not in the tree")
                return o
        raise AnchorMissing(dotted)

    def call(self, f, *a, **k):
        if isinstance(f, str):
            f = self.get(f)
        return self.it.call(f, list(a), k)

    def meth(self, o, name, *a, **k):
        return self.it.call(self.it.getattr(o, name), list(a), k)

    def attr(self, o, name):
        return self.it.getattr(o, name)

    # -------- comparisons
    def parts(self, what, x, n):
        """the n parts of a result"""
        if isinstance(x, (tuple, list)) and len(x) == n:
            return x
        if hasattr(x, "cls") and len(getattr(x.cls, "nt_fields", None) or ()) == n:
            return self.it.iterate(x)
        got = f"{len(x)} parts" if isinstance(x, (tuple, list)) else f"one {'array' if isinstance(x, (Arr, S)) else type(x).__name__}"
        self.bad(what, f"returns {got} instead of {n} parts")
        raise Mismatch()

    def bad(self, what, msg):
        self.mis.append((what, msg))

    def eq(self, what, got, want):
        """entrywise equality of two arrays with literal extents"""
        try:
            g, w = M.AA(got), M.AA(want)
        except (PyError, Unsupported) as e:
            self.bad(what, f"expected an array, got {type(got).__name__} ({e})")
            return False
        if not same_shape(g.shape, w.shape):
            self.bad(what, f"shape {pshape(g.shape)} instead of {pshape(w.shape)}")
            return False
        import itertools
        for idx in itertools.product(*[range(n) for n in g.shape]):
            x, y = A.num(g.get(idx)), A.num(w.get(idx))
            if x.key != y.key:
                at = "" if not idx else f" entry {list(idx)}"
                self.bad(what, f"{at.strip()} computes {show(x)[:220]} ; required {show(y)[:220]}")
                return False
        return True

    def eqb(self, what, got, want):
        if got != want:
            self.bad(what, f"got {got!r}, required {want!r}")
            return False
        return True


def pshape(s):
    return "(" + ",".join(show(x) if isinstance(x, S) else str(x) for x in s) + ")"


def same_shape(a, b):
    return len(a) == len(b) and all(A.dim_eq(x, y) for x, y in zip(a, b))


class Raised:
    def __init__(self, e):
        self.e = e


def explore(fn, setup=None, limit=200, stats=None, it_box=None):
    """run fn(World) in every sign partition; yields (decisions, world, value | Raised)"""
    M.DEPTHS.clear()
    for attempt in range(400):
        N.ROOTED.clear()
        try:
            return _explore(fn, setup, limit, stats, it_box)
        except Resample as e:
            if e.atom is not None and attempt % 100 < 99:
                N.SALT[e.atom] = N.SALT.get(e.atom, 0) + 1
                continue
            N.SALT.clear()
            N.SEED[0] = str(int(N.SEED[0]) + 1) if N.SEED[0].isdigit() else N.SEED[0] + "'"
            it_box.pop("it", None)
            if stats is not None:
                stats["resamples"] = stats.get("resamples", 0) + 1
    raise Unsupported("no signature homomorphism with all square roots found")


def _explore(fn, setup, limit, stats, it_box):
    todo = [[]]
    out = []
    n = 0
    while todo:
        dec = todo.pop()
        n += 1
        if n > limit:
            raise Unsupported(f"more than {limit} sign partitions")
        deep = 0
        while True:
            if "it" not in it_box:
                it_box["it"] = new_interp()
            it = it_box["it"]
            c = Context()
            c.partition = dec
            for d, s in dec:
                c.decisions[d.key] = s
                c.decisions[neg(d).key] = -s
            CTX.append(c)
            w = World(it, c)
            try:
                if setup:
                    setup(w)
                v = fn(w)
                out.append((dec, w, v))
            except NeedSplit as e:
                for s in sorted(e.allowed):
                    todo.append(dec + [(e.key, s)])
            except M.Deepen as e:
                deep += 1
                if deep > 40:
                    raise Unsupported("recurrence depth")
                M.DEPTHS[e.key] = e.amount
                continue
            except Infeasible:
                pass
            except Mismatch:
                out.append((dec, w, None))
            except PyError as e:
                out.append((dec, w, Raised(e)))
            except SingularMatrix:
                out.append((dec, w, Raised(PyError("LinAlgError", "inverse of a matrix that is singular for every input"))))
            except ZeroDivisionError as e:
                out.append((dec, w, Raised(PyError("ZeroDivisionError", str(e)))))
            finally:
                CTX.pop()
                if stats is not None:
                    for k in c.log:
                        stats.setdefault("log", {})
                        kk = repr(k)
                        stats["log"][kk] = stats["log"].get(kk, 0) + 1
            break
    if stats is not None:
        stats["partitions"] = stats.get("partitions", 0) + n
    return out


_TASKS = None


def _discharge(i):
    R, tasks = _TASKS
    try:
        return i, R.discharge(tasks[i])
    except BaseException as e:
        t = tasks[i]
        return i, ((t[0], "incomplete", repr(e), t[2]), [], [(t[0], repr(e))], {}, ({}, set()))


class Report:
    """collects obligations of one property and produces verdict + evidence"""

    def __init__(self, prop, tier="quick"):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.queue = []
        self.obls = []          # (name, status, detail)
        self.viol = []
        self.incomplete = []
        self.stats = {"partitions": 0}
        self.it_box = {}
        self.functions = {}
        self.files = set()
        self.assume = []
        self.extra = {}
        self.known = load_known(prop)
        self.known_hit = []
        self.replay = os.path.join(VERIF, "evidence", f"{prop}.violations.json")

    def obl(self, name, fn, where="", setup=None, limit=200, raises_ok=False):
        """an obligation: fn(World) records mismatches with w.eq/w.bad; discharged at the end, on all cores"""
        if os.environ.get("SA_ONLY", "") in name:       # development aid
            self.queue.append((name, fn, where, setup, limit, raises_ok))

    def discharge(self, task):
        """run one obligation -> (obligation record, violations, incomplete, statistics, functions, files)"""
        name, fn, where, setup, limit, raises_ok = task
        t = time.time()
        viol, inc, stats = [], [], {"partitions": 0}
        try:
            res = explore(fn, setup, limit, stats, self.it_box)
        except Exception as e:       # not understood: recorded, and never a verdict
            if not isinstance(e, (Unsupported, AnchorMissing)):
                self.it_box.pop("it", None)
                del CTX[1:]
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
            f = self._collect()
            return (name, "incomplete", str(e), where), viol, [(name, f"{type(e).__name__}: {e}")], stats, f
        if not res:
            inc.append((name, "no feasible partition"))
        for dec, w, v in res:
            ctxdesc = "; ".join(f"{show(d)[:80]} {'<=>'[s + 1] if s else '='} 0" for d, s in dec)
            if isinstance(v, Raised):
                if raises_ok:
                    continue
                viol.append((name, where, f"the call raises {v.e}", ctxdesc))
            for what, msg in w.mis:
                viol.append((name + " / " + what if what else name, where, msg, ctxdesc))
        ok = not viol and not inc
        return (name, "ok" if ok else "violated", f"{len(res)} partitions, {time.time() - t:.2f}s", where), viol[:50], inc, stats, self._collect()

    def discharge_all(self):
        tasks, self.queue = self.queue, []
        if not tasks:
            return
        n = min(len(tasks), int(os.environ.get("SA_JOBS", "0")) or os.cpu_count() or 1)
        if n <= 1 or os.environ.get("SA_DEBUG"):
            results = [self.discharge(t) for t in tasks]
        else:
            import concurrent.futures as cf
            import concurrent.futures.process
            import multiprocessing as mp
            global _TASKS
            try:
                self.it_box["it"] = new_interp()
            except Exception:
                pass            # reported by the obligations themselves
            _TASKS = (self, tasks)
            results = [None] * len(tasks)
            try:
                with cf.ProcessPoolExecutor(n, mp_context=mp.get_context("fork")) as pool:
                    for f in cf.as_completed([pool.submit(_discharge, i) for i in range(len(tasks))]):
                        i, r = f.result()
                        results[i] = r
            except cf.process.BrokenProcessPool:
                pass
            results = [r or self.discharge(t) for r, t in zip(results, tasks)]
        for obl, viol, inc, stats, (fns, files) in results:
            self.obls.append(obl)
            for v in viol:
                self.violation(*v)
            self.incomplete += inc
            self.stats["partitions"] += stats.get("partitions", 0)
            for k, v in stats.get("log", {}).items():
                lg = self.stats.setdefault("log", {})
                lg[k] = lg.get(k, 0) + v
            self.functions.update(fns)
            self.files |= files

    def check(self, name, ok, where="", msg=""):
        """a directly decided obligation"""
        if not ok:
            self.violation(name, where, msg, "")
        self.obls.append((name, "ok" if ok else "violated", msg if not ok else "", where))

    def fail_incomplete(self, name, why):
        self.incomplete.append((name, why))
        self.obls.append((name, "incomplete", why, ""))

    def _collect(self):
        it = self.it_box.get("it")
        fns, files = {}, set()
        if it is not None:
            for k, (p, l) in it.functions.items():
                if k[0].startswith("smolgp"):
                    fns[k[0] + "." + k[1]] = (os.path.relpath(p, REPO), l)
            files = {p for p in it.files if "/smolgp/" in p}
        return fns, files

    def violation(self, name, where, msg, ctxdesc=""):
        for k in self.known:
            if k and name.startswith(k):
                if k not in self.known_hit:
                    self.known_hit.append(k)
                return
        self.viol.append({"construct": name, "where": where, "message": msg, "context": ctxdesc})

    def finish(self, level, coverage=None, min_obls=1):
        p = self.prop
        self.discharge_all()
        if len(self.obls) < min_obls:
            self.incomplete.append(("coverage floor", f"only {len(self.obls)} obligations (expected at least {min_obls})"))
        seen = set()
        uniq = []
        for v in self.viol:
            k = (v["construct"], v["message"][:80])
            if k not in seen:
                seen.add(k)
                uniq.append(v)
        self.viol = uniq
        ev = {
            "property": p, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
            "level": level,
            "coverage": self.coverage(level, coverage),
            "assumptions": self.assume + BASE_ASSUMPTIONS,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": [f"{v['construct']} ({v['where']}): {v['message']}" for v in self.viol],
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{p}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        done = sum(1 for o in self.obls if o[1] == "ok")
        print(f"{p}: {done}/{len(self.obls)} obligations discharged over {self.stats['partitions']} partitions, "
              f"{len(self.functions)} functions of the program analysed, {time.time() - self.t0:.1f}s")
        for k in self.known_hit:
            print(f"KNOWN-FINDING: property={p} {k}: {self.known[k]}")
        if self.viol:
            with open(self.replay, "w") as f:
                json.dump(self.viol, f, indent=1)
            for v in self.viol[:20]:
                print(f"  {v['construct']} [{v['where']}]: {v['message']}" + (f"   (when {v['context']})" if v["context"] else ""))
            print(f"VIOLATION property={p} replay={self.replay}")
            return 1
        if self.incomplete:
            for n, w in self.incomplete:
                print(f"ANALYSIS INCOMPLETE: {n}: {w}")
            return 2
        return 0

    def coverage(self, level, extra):
        c = {
            "obligations": len(self.obls),
            "discharged": sum(1 for o in self.obls if o[1] == "ok"),
            "explanation": (extra or {}).get("explanation", ""),
            "obligation_list": [{"name": o[0], "status": o[1], "detail": o[2], "where": o[3]} for o in self.obls],
            "functions_analysed": {k: f"{v[0]}:{v[1]}" for k, v in sorted(self.functions.items())},
            "files_analysed": sorted(os.path.relpath(x, REPO) for x in self.files),
            "partitions": self.stats["partitions"],
            "engine_log": self.stats.get("log", {}),
        }
        c.update({k: v for k, v in (extra or {}).items()})
        c.update(self.extra)
        if level == "proof":
            c.setdefault("checker_cmd", f"python3-vt -m sa.run {self.prop} {self.tier}")
            c.setdefault("trusted_base", ["/verif/sa abstract interpreter (num.py, arr.py, interp.py)",
                                          "/verif/sa/models.py: models of the jax / equinox primitives",
                                          "signature equality: collision probability about 1e-30 per comparison"])
        return c


BASE_ASSUMPTIONS = [
    "values are exact reals: rounding is outside the claim",
    "jax, equinox and numpy primitives behave as modelled in /verif/sa/models.py",
    "expressions are compared generically: divisors that are not identically zero are taken as nonzero",
]


def load_known(prop):
    """known_findings.txt lines:  known: property=<id> <construct prefix> :: <what fails>"""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith(f"known: property={prop} "):
                body = line[len(f"known: property={prop} "):]
                k, _, why = body.partition(" :: ")
                out[k.strip()] = why.strip()
    return out


# ------------------------------------------------------------------ spec-side helpers
def pos(name, *k, lo=None, hi=None):
    iv = Iv(Fraction(lo) if lo is not None else 0, Fraction(hi) if hi is not None else N.INF, True, True)
    return atom(name, *k, positive=True, iv=iv)


def arr0(x):
    return asarr(x)


def mat(rows):
    import numpy as np
    d = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            d[i, j] = lift(x)
    return A.from_np(d)


def matrix(name, n, m=None, sym=False):
    m = n if m is None else m
    return mat([[atom(name, *(sorted((i, j)) if sym else (i, j))) for j in range(m)] for i in range(n)])


def T(a):
    return A.transpose(a)


def mm(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = A.matmul(r, x)
    return r


def plus(a, b):
    return A.elementwise(lambda x, y: add(A.num(x), A.num(y)), a, b)


def minus(a, b):
    return A.elementwise(lambda x, y: add(A.num(x), neg(A.num(y))), a, b)


def times(s, a):
    s = lift(s) if not isinstance(s, Arr) else s.get(())
    return A.elementwise(lambda x: mul(s, A.num(x)), a)


def deriv(x):
    """derivative of a lag series"""
    p = x.p
    return tuple(k * p[k] % N.P for k in range(1, len(p))) or (0,)


def eq_deriv(a, b, upto):
    """derivative of array a equals array b, coefficient by coefficient below `upto`"""
    da, db = a.force(), b.force()
    for idx, x in enumerate(da.flat):
        y = list(db.flat)[idx]
        dx = deriv(A.num(x))
        py = A.num(y).p
        for k in range(upto):
            cx = dx[k] if k < len(dx) else 0
            cy = py[k] if k < len(py) else 0
            if cx != cy:
                return False, idx
    return True, None


def at0(x):
    """value of a lag series at zero lag"""
    return x.p[0]


def eye_(n):
    return A.eye(n)
