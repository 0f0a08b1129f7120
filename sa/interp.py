"""Abstract interpreter for the Python subset smolgp is written in.

Walks the syntax tree of the repository's modules (read from the working tree
on every run), resolving imports, classes, closures, properties and calls, and
evaluates every expression in the value-graph domain of num.py / arr.py.  It
never imports or executes smolgp (or jax, equinox, tinygp): their primitives
are given by the models in models.py, tinygp's own helpers by its source.
"""
from __future__ import annotations
import ast
import copy
import os
import sys
from fractions import Fraction
import numpy as np
from . import arr as A
from .arr import Arr, PyError, asarr, ctx, elementwise, num
from .num import S, NeedSplit, Unsupported, add, const, inv, lift, mul, neg, power

sys.setrecursionlimit(20000)


class Env:
    __slots__ = ("vars", "parent", "module", "globals_", "nonlocals_", "is_class")

    def __init__(self, parent, module, is_class=False):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.globals_ = set()
        self.nonlocals_ = set()
        self.is_class = is_class


class Func:
    def __init__(self, node, env, module, qualname, defaults, kwdefaults, cls=None):
        self.node, self.env, self.module, self.qualname = node, env, module, qualname
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls
        self.name = getattr(node, "name", "<lambda>")
        self.attrs = {}
        self.traced = False     # compiled: its array arguments are tracers ("arrays": only those)
        self.static = ()        # names and positions of arguments that are not

    def __repr__(self):
        return f"<func {self.module.name}.{self.qualname}>"


class BoundMethod:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Builtin:
    host = view = False         # returns a numpy array; returns a view of its receiver
    python = False              # a plain Python function

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<builtin {self.name}>"


class Property:
    def __init__(self, fget):
        self.fget = fget


class StaticMethod:
    def __init__(self, f):
        self.f = f


class ClassMethod:
    def __init__(self, f):
        self.f = f


class FieldSpec:
    def __init__(self, default=None, has_default=False, factory=None, static=False, init=True):
        self.default, self.has_default, self.factory, self.static, self.init = \
            default, has_default, factory, static, init


class Module:
    def __init__(self, name, path, interp):
        self.name, self.path, self.interp = name, path, interp
        self.env = Env(None, self)
        self.loaded = False
        self.tree = None

    def __repr__(self):
        return f"<module {self.name}>"


class NS:
    """namespace of modelled library primitives"""

    def __init__(self, name, table):
        self.name, self.table = name, table

    def __repr__(self):
        return f"<ns {self.name}>"


class UnknownVal:
    """something the analysis has no model for; an error only if it is used"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<unmodelled {self.name}>"


class Class:
    def __init__(self, name, bases, ns, module, node=None):
        self.name, self.bases, self.ns, self.module, self.node = name, bases, ns, module, node
        self.annotations = {}
        self.mro = c3(self)
        self.qualname = name

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def is_sub(self, other):
        return other in self.mro

    def __repr__(self):
        return f"<class {self.name}>"


def c3(cls):
    seqs = [list(b.mro) for b in cls.bases if isinstance(b, Class)] + \
           [[b for b in cls.bases if isinstance(b, Class)]]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise Unsupported("inconsistent MRO")
        out.append(h)
        for t in seqs:
            if t and t[0] is h:
                t.pop(0)


class Inst:
    count = 0

    def __init__(self, cls):
        Inst.count += 1
        self.serial = Inst.count
        self.cls = cls
        self.fields = {}
        self.initialising = False

    def __repr__(self):
        return f"<{self.cls.name} instance>"


class SuperObj:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class ExcInst:
    def __init__(self, cls, args):
        self.cls, self.args = cls, args


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


PYEXC = {n: getattr(__import__("builtins"), n) for n in
         ["Exception", "BaseException", "ValueError", "TypeError", "KeyError", "IndexError", "AttributeError",
          "NotImplementedError", "RuntimeError", "AssertionError", "ZeroDivisionError", "ImportError",
          "ModuleNotFoundError", "NameError", "StopIteration", "OverflowError", "ArithmeticError", "LookupError",
          "UserWarning", "Warning", "DeprecationWarning", "RuntimeWarning", "FutureWarning"]}


class ExcClass:
    def __init__(self, name, py=None, cls=None):
        self.name, self.py, self.cls = name, py, cls

    def __repr__(self):
        return f"<exc {self.name}>"


def unhost(x):
    if isinstance(x, Arr):
        return A.alias(x, None) if x.host is not None else x
    if isinstance(x, (tuple, list)) and any(isinstance(e, (Arr, tuple, list)) for e in x):
        return type(x)([unhost(e) for e in x])
    return x


def tracers(x, seen, it, path="argument"):
    """what a compiled function sees of an argument: every number in it is a tracer"""
    if id(x) in seen:
        return seen[id(x)][0]
    r = x
    if isinstance(x, (S, bool, int, float, Fraction)):
        r = it.libs["jax.numpy"].table["asarray"].fn(x)
    elif isinstance(x, Inst) and (any(getattr(b, 'is_eqx', False) for b in x.cls.mro) or getattr(x.cls, "nt_fields", None)):
        r = Inst(x.cls)
        seen[id(x)] = (r, x)
        r.fields = {k: e if it.models._static(x.cls, k) else tracers(e, seen, it, f"{path}.{k}") for k, e in x.fields.items()}
    elif isinstance(x, BoundMethod) and isinstance(x.self_, Inst):       # methods of modules are trees, too
        r = BoundMethod(x.func, tracers(x.self_, seen, it, path + ".__self__"))
    elif isinstance(x, (tuple, list)):
        r = type(x)([tracers(e, seen, it) for e in x])
    elif isinstance(x, dict):
        r = {k: tracers(e, seen, it) for k, e in x.items()}
    elif x is not None and not isinstance(x, Arr):
        raise PyError("TypeError", f"{path} of a compiled function is not a valid JAX type ({type(x).__name__})")
    seen[id(x)] = (r, x)
    return r


class Interp:
    def __init__(self, roots):
        """roots: {package name: directory} of packages analysed from source"""
        self.roots = roots
        self.modules = {}
        self.stack = []
        self.functions = {}       # functions analysed: (module, qualname) -> (path, line)
        self.calls = 0
        self.opaque_calls = set()
        self.writes = []
        self.effects = []       # writes into arrays of the caller or into libraries
        from . import models
        self.models = models
        self.libs = models.build(self)
        self.builtins = models.python_builtins(self)
        self.files = set()
        self.depth = 0
        self.tracing = None     # None: not asked; else whether array values are tracers here (their values unknown to Python)

    # ---------------------------------------------------------------- modules
    def find_module(self, name):
        parts = name.split(".")
        root = self.roots.get(parts[0])
        if root is None:
            return None
        base = os.path.join(root, *parts[1:])
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py")
        if os.path.exists(base + ".py"):
            return base + ".py"
        return None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.libs:
            return self.libs[name]
        path = self.find_module(name)
        if path is None:
            parts = name.split(".")
            if parts[0] in self.roots:
                return None
            if "." in name:
                parent = self.load(".".join(parts[:-1]))
                if isinstance(parent, NS):
                    return parent.table.get(parts[-1], UnknownVal(name))
            return UnknownVal(name)
        if "." in name:
            self.load(".".join(name.split(".")[:-1]))
            if name in self.modules:
                return self.modules[name]
        m = Module(name, path, self)
        self.modules[name] = m
        self.files.add(path)
        src = open(path, encoding="utf-8").read()
        m.tree = ast.parse(src, path)
        m.env.vars["__name__"] = name
        m.env.vars["__doc__"] = None
        m.env.vars["__file__"] = path
        m.loaded = True
        self.exec_block(m.tree.body, m.env)
        if "." in name:
            par, leaf = name.rsplit(".", 1)
            if isinstance(self.modules.get(par), Module):
                self.modules[par].env.vars.setdefault(leaf, m)
        return m

    def module_getattr(self, m, name):
        if name in m.env.vars:
            return m.env.vars[name]
        sub = self.load(m.name + "." + name) if self.find_module(m.name + "." + name) else None
        if sub is not None:
            return sub
        raise PyError("AttributeError", f"module {m.name} has no attribute {name}")

    # ---------------------------------------------------------------- statements
    def exec_block(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__} at {env.module.path}:{st.lineno}")
        m(st, env)

    def x_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def x_Pass(self, st, env):
        pass

    def x_Import(self, st, env):
        for a in st.names:
            mod = self.load(a.name)
            if a.asname:
                env.vars[a.asname] = mod if mod is not None else UnknownVal(a.name)
            else:
                env.vars[a.name.split(".")[0]] = self.load(a.name.split(".")[0])

    def x_ImportFrom(self, st, env):
        name = st.module or ""
        if name == "__future__":
            return
        if st.level:
            pkg = env.module.name.split(".")
            if not env.module.path.endswith("__init__.py"):
                pkg = pkg[:-1]
            pkg = pkg[:len(pkg) - (st.level - 1)]
            name = ".".join(pkg + ([name] if name else []))
        mod = self.load(name)
        for a in st.names:
            if a.name == "*":
                if isinstance(mod, Module):
                    for k, v in mod.env.vars.items():
                        if not k.startswith("_"):
                            env.vars[k] = v
                continue
            env.vars[a.asname or a.name] = self.import_member(mod, name, a.name)

    def import_member(self, mod, name, attr):
        if isinstance(mod, Module):
            if attr in mod.env.vars:
                return mod.env.vars[attr]
            sub = name + "." + attr
            if self.find_module(sub):
                return self.load(sub)
            return UnknownVal(sub)
        if isinstance(mod, NS):
            return mod.table.get(attr, UnknownVal(name + "." + attr))
        return UnknownVal(name + "." + attr)

    def x_FunctionDef(self, st, env):
        f = self.make_func(st, env)
        v = f
        for d in reversed(st.decorator_list):
            dec = self.eval(d, env)
            v = self.call(dec, [v], {}, st)
        self.assign_name(st.name, v, env)

    def make_func(self, node, env):
        a = node.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = {}
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[k.arg] = self.eval(d, env)
        qn = getattr(node, "name", "<lambda>")
        par = env.vars.get("__qualname__") if env.is_class else None
        if par:
            qn = par + "." + qn
        elif self.stack and env.parent is not None:
            qn = self.stack[-1].qualname + "." + qn
        return Func(node, env, env.module, qn, defaults, kwd)

    def x_ClassDef(self, st, env):
        bases = [self.eval(b, env) for b in st.bases]
        bs = []
        for b in bases:
            if isinstance(b, Class):
                bs.append(b)
            elif isinstance(b, ExcClass):
                self.assign_name(st.name, ExcClass(st.name, py=b.py), env)
                return
            elif isinstance(b, (UnknownVal, Builtin, NS)):
                nm = getattr(b, "name", "")
                if nm.endswith("NamedTuple"):
                    bs.append(self.libs["typing"].table["NamedTuple"])
                elif nm.endswith(("Generic", "Protocol", "ABC")):
                    pass
                else:
                    bs.append(Class(nm, [], {}, env.module))
            else:
                raise Unsupported(f"base class {b!r}")
        cenv = Env(env, env.module, is_class=True)
        outer = env.vars.get("__qualname__") if env.is_class else None
        cenv.vars["__qualname__"] = (outer + "." if outer else "") + st.name
        ann = {}
        for s2 in st.body:
            if isinstance(s2, ast.AnnAssign) and isinstance(s2.target, ast.Name):
                txt = ast.unparse(s2.annotation)
                if "ClassVar" not in txt:
                    ann[s2.target.id] = None
                if s2.value is not None:
                    cenv.vars[s2.target.id] = self.eval(s2.value, cenv)
            else:
                self.exec(s2, cenv)
        qn = cenv.vars.pop("__qualname__")
        c = Class(st.name, bs, cenv.vars, env.module, st)
        c.qualname = qn
        c.annotations = ann
        for v in cenv.vars.values():
            for f in unwrap(v):
                if isinstance(f, Func) and f.cls is None:
                    f.cls = c
        v = c
        for d in reversed(st.decorator_list):
            dec = self.eval(d, env)
            nm = getattr(dec, "name", "")
            if nm.split(".")[-1] in ("dataclass", "runtime_checkable", "final") or isinstance(dec, UnknownVal):
                continue
            r = self.call(dec, [v], {}, st)
            v = r if isinstance(r, Class) else v
        self.assign_name(st.name, v, env)

    def x_Return(self, st, env):
        raise ReturnEx(self.eval(st.value, env) if st.value is not None else None)

    def x_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def x_AugAssign(self, st, env):
        t = st.target
        cur = self.eval(ast.copy_location(_load(t), t), env)
        v = self.eval(st.value, env)
        if isinstance(cur, list) and isinstance(st.op, ast.Add):
            cur.extend(self.iterate(v))
            return
        new = self.binop(type(st.op).__name__, cur, v, st)
        if isinstance(cur, Arr) and cur.host is not None and cur.ndim and isinstance(new, Arr):
            self.write_array(cur, new, st, env)
            return
        if isinstance(cur, (set, dict)):
            cur.clear()
            cur.update(new)
            new = cur
        self.assign(t, new, env)

    def write_array(self, a, new, node, env):
        if a.host:
            self.effects.append(f"{env.module.name}, line {node.lineno}: writes into {a.host} given by the caller")
        A.overwrite(a, new)

    def assign_name(self, name, v, env):
        if name in env.globals_:
            env.module.env.vars[name] = v
        elif name in env.nonlocals_:
            e = env.parent
            while e is not None and name not in e.vars:
                e = e.parent
            (e or env).vars[name] = v
        else:
            env.vars[name] = v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack_iter(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                k = star[0]
                n = len(t.elts)
                if len(vals) < n - 1:
                    raise PyError("ValueError", "not enough values to unpack")
                mid = len(vals) - (n - 1)
                parts = vals[:k] + [list(vals[k:k + mid])] + vals[k + mid:]
                for e, x in zip(t.elts, parts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)
                return
            if len(vals) != len(t.elts):
                raise PyError("ValueError", f"cannot unpack {len(vals)} values into {len(t.elts)} targets "
                              f"({env.module.path}:{t.lineno})")
            for e, x in zip(t.elts, vals):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            self.setattr(o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            if isinstance(o, (list, dict)):
                o[self.hashable(k)] = v
            elif isinstance(o, Arr) and o.host is not None:
                at = self.call(self.getattr(self.eval_at(o, k), "set"), [v], {})
                self.write_array(o, at, t, env)
            elif isinstance(o, Arr):
                raise PyError("TypeError", "JAX arrays are immutable")
            else:
                raise Unsupported(f"item assignment on {type(o).__name__}")
        else:
            raise Unsupported("assignment target")

    def eval_at(self, o, k):
        return self.getitem(self.getattr(o, "at"), k)

    def hashable(self, k):
        if isinstance(k, (Arr, S)):
            self.concrete(k, "a hash", "TypeError")
            e = asarr(k).get(()) if asarr(k).ndim == 0 else None
            if isinstance(e, S) and e.aconst() is not None:
                return e.aconst()
            raise Unsupported("array used as a key")
        if isinstance(k, Fraction) and k.denominator == 1:
            return int(k)
        return k

    def unpack_iter(self, v):
        if isinstance(v, Arr):
            if v.ndim == 0 or not isinstance(v.shape[0], int):
                raise PyError("TypeError", f"cannot unpack an array of shape {v.shape}") if v.ndim == 0 else \
                    PyError("ValueError", f"too many values to unpack: array of shape {v.shape}")
            return [A.getitem(v, i) for i in range(v.shape[0])]
        return list(self.iterate(v))

    def unrolled(self):
        if A.Extents.level is not None:
            raise PyError("UnrolledLoop", "a Python loop over the data" + self.where())
        raise Unsupported("python iteration over a data-length axis")

    def iterate(self, v):
        if isinstance(v, (set, frozenset)):
            out = sorted(v, key=lambda e: (repr(e), getattr(e, "serial", 0)))
            return out[::-1] if A.ctx().hooks.get("set_reversed") else out      # an order the program cannot know
        if isinstance(v, (tuple, list, range, str)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, Arr):
            if v.ndim and isinstance(v.shape[0], int):
                return [A.getitem(v, i) for i in range(v.shape[0])]
            self.unrolled()
        if isinstance(v, Inst):
            if getattr(v.cls, "nt_fields", None):
                return [v.fields[k] for k in v.cls.nt_fields]
            f, _ = v.cls.lookup("__iter__")
            if f is not None:
                return self.iterate(self.call(BoundMethod(f, v), [], {}))
        if hasattr(v, "__iter__") and not isinstance(v, (NS,)):
            return list(v)
        raise PyError("TypeError", f"cannot unpack non-iterable {type(v).__name__} object")

    def setattr(self, o, name, v, node=None, force=False):
        if isinstance(o, Inst):
            if not force and not o.initialising and any(getattr(b, "is_eqx", False) for b in o.cls.mro):
                raise PyError("FrozenInstanceError", f"cannot assign to field '{name}'")
            fr = self.stack[-1] if self.stack else None
            self.writes.append((o, name, fr))
            o.fields[name] = v
        elif isinstance(o, (Func,)):
            o.attrs[name] = v
        elif isinstance(o, Module):
            o.env.vars[name] = v
        elif isinstance(o, Class):
            o.ns[name] = v
        elif isinstance(o, NS):
            self.effects.append(f"assigns {o.name}.{name}")
        else:
            raise Unsupported(f"attribute assignment on {type(o).__name__}")

    def x_If(self, st, env):
        if isinstance(st.test, ast.Name) and st.test.id == "TYPE_CHECKING" or \
                isinstance(st.test, ast.Attribute) and st.test.attr == "TYPE_CHECKING":
            self.exec_block(st.orelse, env)
            return
        if self.truth(self.eval(st.test, env), st.test, env):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def x_For(self, st, env):
        it = self.eval(st.iter, env)
        broke = False
        for v in self.iterate(it):
            self.assign(st.target, v, env)
            try:
                self.exec_block(st.body, env)
            except BreakEx:
                broke = True
                break
            except ContinueEx:
                continue
        if not broke:
            self.exec_block(st.orelse, env)

    def x_While(self, st, env):
        n = 0
        while self.truth(self.eval(st.test, env), st.test, env):
            n += 1
            if n > 5000:
                raise Unsupported("while loop bound")
            try:
                self.exec_block(st.body, env)
            except BreakEx:
                return
            except ContinueEx:
                continue
        self.exec_block(st.orelse, env)

    def x_Break(self, st, env):
        raise BreakEx()

    def x_Continue(self, st, env):
        raise ContinueEx()

    def x_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env), st.test, env):
            raise PyError("AssertionError", ast.unparse(st.test))

    def x_Raise(self, st, env):
        if st.exc is None:
            raise PyError("RuntimeError", "re-raise")
        e = self.eval(st.exc, env)
        if isinstance(e, ExcClass):
            e = ExcInst(e, ())
        if isinstance(e, ExcInst):
            raise PyError(e.cls.name, " ".join(str(a) for a in e.args))
        raise PyError("Exception", str(e))

    def x_Try(self, st, env):
        try:
            self.exec_block(st.body, env)
        except PyError as e:
            for h in st.handlers:
                if self.exc_match(h, e, env):
                    if h.name:
                        env.vars[h.name] = ExcInst(ExcClass(e.cls), (e.msg,))
                    self.exec_block(h.body, env)
                    break
            else:
                self.exec_block(st.finalbody, env)
                raise
        else:
            self.exec_block(st.orelse, env)
        self.exec_block(st.finalbody, env)

    def exc_match(self, h, e, env):
        if h.type is None:
            return True
        t = self.eval(h.type, env)
        ts = t if isinstance(t, tuple) else (t,)
        pe = PYEXC.get(e.cls, Exception)
        for x in ts:
            if isinstance(x, ExcClass):
                if x.name == e.cls or (x.py is not None and issubclass(pe, x.py) and x.name in PYEXC):
                    return True
        return False

    def x_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                del o[self.hashable(self.eval_index(t.slice, env))]
            else:
                raise Unsupported("del target")

    def x_Global(self, st, env):
        env.globals_.update(st.names)

    def x_Nonlocal(self, st, env):
        env.nonlocals_.update(st.names)

    def x_With(self, st, env):
        for it in st.items:
            v = self.eval(it.context_expr, env)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        self.exec_block(st.body, env)

    # ---------------------------------------------------------------- expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} at {env.module.path}:{e.lineno}")
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                return v
            return Fraction(repr(v))
        return v

    def e_Name(self, e, env):
        return self.lookup(e.id, env, e)

    def lookup(self, name, env, node=None):
        en = env
        first = True
        while en is not None:
            if name in en.vars and (first or not en.is_class):
                return en.vars[name]
            first = False
            en = en.parent
        if name in env.module.env.vars:
            return env.module.env.vars[name]
        if name in self.builtins:
            return self.builtins[name]
        raise PyError("NameError", f"name '{name}' is not defined ({env.module.path}:{getattr(node,'lineno',0)})")

    def e_Tuple(self, e, env):
        return tuple(self.seq(e.elts, env))

    def e_List(self, e, env):
        return self.seq(e.elts, env)

    def e_Set(self, e, env):
        return set(self.hashable(x) for x in self.seq(e.elts, env))

    def seq(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, env))
            else:
                d[self.hashable(self.eval(k, env))] = self.eval(v, env)
        return d

    def e_Lambda(self, e, env):
        return self.make_func(e, env)

    def e_IfExp(self, e, env):
        return self.eval(e.body if self.truth(self.eval(e.test, env), e.test, env) else e.orelse, env)

    def e_BoolOp(self, e, env):
        v = None
        for x in e.values:
            v = self.eval(x, env)
            t = self.truth(v, x, env)
            if isinstance(e.op, ast.And) and not t:
                return v
            if isinstance(e.op, ast.Or) and t:
                return v
        return v

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Starred(self, e, env):
        raise Unsupported("starred expression")

    def e_JoinedStr(self, e, env):
        out = ""
        for v in e.values:
            if isinstance(v, ast.Constant):
                out += str(v.value)
            else:
                x = self.eval(v.value, env)
                spec = ""
                if v.format_spec is not None:
                    spec = self.e_JoinedStr(v.format_spec, env)
                if spec:
                    self.concrete(x, "formatting", "TypeError")
                if isinstance(x, (Arr, S)):
                    c = asarr(x)
                    if c.ndim == 0 and isinstance(c.get(()), S) and c.get(()).const() is not None:
                        x = c.get(()).const()
                try:
                    if isinstance(x, Fraction) and not spec:
                        x = float(x)
                    out += format(x, spec) if not isinstance(x, (Arr, S, Inst)) else repr(x)
                except Exception:
                    out += repr(x)
        return out

    def e_FormattedValue(self, e, env):
        return str(self.eval(e.value, env))

    def comp(self, gens, env, emit):
        def rec(i, en):
            if i == len(gens):
                emit(en)
                return
            g = gens[i]
            for v in self.iterate(self.eval(g.iter, en)):
                self.assign(g.target, v, en)
                if all(self.truth(self.eval(c, en), c, en) for c in g.ifs):
                    rec(i + 1, en)
        en = Env(env if not env.is_class else env, env.module)
        rec(0, en)

    def e_ListComp(self, e, env):
        out = []
        self.comp(e.generators, env, lambda en: out.append(self.eval(e.elt, en)))
        return out

    def e_GeneratorExp(self, e, env):
        return self.e_ListComp(e, env)

    def e_SetComp(self, e, env):
        out = []
        self.comp(e.generators, env, lambda en: out.append(self.hashable(self.eval(e.elt, en))))
        return set(out)

    def e_DictComp(self, e, env):
        out = {}

        def emit(en):
            out[self.hashable(self.eval(e.key, en))] = self.eval(e.value, en)
        self.comp(e.generators, env, emit)
        return out

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        op = type(e.op).__name__
        if op == "Not":
            return not self.truth(v, e.operand, env)
        if isinstance(v, (Arr, S)):
            a = asarr(v)
            if op == "USub":
                return elementwise(lambda x: neg(num(x)), a)
            if op == "UAdd":
                return v
            if a.kind == "b":
                return elementwise(lambda x: not x, a, kind="b")
            raise Unsupported("bitwise not on numbers")
        if isinstance(v, Inst):
            f, _ = v.cls.lookup({"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op])
            if f is not None:
                return self.call(BoundMethod(f, v), [], {})
        if isinstance(v, (int, float, Fraction)):
            return -v if op == "USub" else v if op == "UAdd" else ~v
        raise PyError("TypeError", f"bad operand type for unary {op}: {type(v).__name__}")

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.binop(type(e.op).__name__, a, b, e)

    DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Pow": "pow", "MatMult": "matmul",
              "FloorDiv": "floordiv", "Mod": "mod", "BitAnd": "and", "BitOr": "or", "BitXor": "xor"}

    def binop(self, op, a, b, node=None):
        if op == "BitOr" and (isinstance(a, (Class, UnknownVal, self.models.PyType, self.models.DType))
                              or isinstance(b, (Class, UnknownVal, self.models.PyType, self.models.DType))):
            return UnknownVal("type union")
        if isinstance(a, Inst) or isinstance(b, Inst) or hasattr(a, "sa_binop") or hasattr(b, "sa_binop"):
            return self.inst_binop(op, a, b, node)
        if isinstance(a, (Arr, S)) or isinstance(b, (Arr, S)):
            if isinstance(a, (UnknownVal,)) or isinstance(b, (UnknownVal,)):
                raise Unsupported(f"operation with {a!r}/{b!r}")
            return self.python_result(self.models.array_binop(op, a, b), a, b)
        try:
            if op == "Add":
                return a + b
            if op == "Sub":
                return a - b
            if op == "Mult":
                return a * b
            if op == "Div":
                if isinstance(a, int) and isinstance(b, int):
                    r = Fraction(a, b)
                    return r
                return a / b
            if op == "Pow":
                if isinstance(b, Fraction) and b.denominator != 1 or isinstance(b, int) and b < 0:
                    r = power(const(a), const(b))
                    return r.const() if r.const() is not None else asarr(r)
                return a ** b
            if op == "FloorDiv":
                return a // b
            if op == "Mod":
                return a % b
            if op == "BitAnd":
                return a & b
            if op == "BitOr":
                return a | b
            if op == "BitXor":
                return a ^ b
            if op == "LShift":
                return a << b
            if op == "RShift":
                return a >> b
        except ZeroDivisionError as x:
            raise PyError("ZeroDivisionError", str(x))
        except TypeError as x:
            if isinstance(a, UnknownVal) or isinstance(b, UnknownVal):
                return UnknownVal("expr")
            raise PyError("TypeError", str(x))
        raise Unsupported(f"operator {op}")

    def inst_binop(self, op, a, b, node=None):
        d = self.DUNDER.get(op)
        if d is None:
            raise Unsupported(f"operator {op} on objects")
        for x, y, nm in ((a, b, f"__{d}__"), (b, a, f"__r{d}__")):
            if isinstance(x, Inst):
                f, _ = x.cls.lookup(nm)
                if f is not None:
                    # arrays do not know how to handle library objects: reflected method
                    r = self.call(BoundMethod(f, x), [y], {}, node)
                    if r is not NotImplemented:
                        return r
            elif hasattr(x, "sa_binop"):
                r = x.sa_binop(op, y, nm.startswith("__r"))
                if r is not NotImplemented:
                    return r
        raise PyError("TypeError", f"unsupported operand type(s) for {op}: {a!r} and {b!r}")

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = True
        for op, rt in zip(e.ops, e.comparators):
            right = self.eval(rt, env)
            r = self.compare(type(op).__name__, left, right, e)
            if len(e.ops) == 1:
                return r
            if not self.truth(r, e, env):
                return False
            left = right
            res = r
        return res

    def python_result(self, r, *ops):
        """numbers combined with numbers (or numpy arrays) are no jax arrays"""
        if self.tracing and not isinstance(r, (Arr, S)):
            return asarr(r)
        if self.tracing is not None and isinstance(r, Arr) and not any(isinstance(x, Arr) and x.host is None for x in ops):
            return A.alias(r, "")
        return r

    def compare(self, op, a, b, node=None):
        if op == "Is":
            return self.is_same(a, b)
        if op == "IsNot":
            return not self.is_same(a, b)
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            return r if op == "In" else not r
        if isinstance(a, (Arr, S)) or isinstance(b, (Arr, S)):
            if a is None or b is None or isinstance(a, (str, Class)) or isinstance(b, (str, Class)):
                return op == "NotEq"
            return self.python_result(self.models.array_compare(op, a, b), a, b)
        if isinstance(a, Inst) and op in ("Eq", "NotEq"):
            f, _ = a.cls.lookup("__eq__")
            if f is not None:
                r = self.truth(self.call(BoundMethod(f, a), [b], {}))
                return r if op == "Eq" else not r
            return (a is b) == (op == "Eq")
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and op in ("Eq", "NotEq"):
            eq = type(a) is type(b) and len(a) == len(b) and all(
                self.truth(self.compare("Eq", x, y)) for x, y in zip(a, b))
            return eq == (op == "Eq")
        try:
            return {"Eq": lambda: a == b, "NotEq": lambda: a != b, "Lt": lambda: a < b, "LtE": lambda: a <= b,
                    "Gt": lambda: a > b, "GtE": lambda: a >= b}[op]()
        except TypeError as x:
            raise PyError("TypeError", str(x))

    def is_same(self, a, b):
        if a is b:
            return True
        if isinstance(a, (int, str)) and isinstance(b, (int, str)) and type(a) is type(b):
            return a == b
        return False

    def contains(self, c, x):
        if isinstance(c, dict):
            return self.hashable(x) in c
        if isinstance(c, str):
            return x in c
        for y in self.iterate(c):
            if y is x:
                return True
            if isinstance(y, (Arr, S)) or isinstance(x, (Arr, S)):
                if self.truth(self.compare("Eq", y, x)):
                    return True
            elif not isinstance(y, Inst) and not isinstance(x, Inst) and y == x:
                return True
        return False

    def concrete(self, v, what, exc="ConcretizationTypeError"):
        """the value of v is needed while the program runs as Python"""
        if self.tracing and isinstance(v, Arr) and v.host is None:
            raise PyError(exc, f"{what} is asked of a traced array{self.where()}")

    def where(self):
        return f" in {self.stack[-1].module.name}.{self.stack[-1].qualname}" if self.stack else ""

    def staged(self, f, args, kw):
        """call a function that jax traces"""
        if self.tracing is None:
            return self.call(f, args, kw)
        old, self.tracing = self.tracing, True
        try:
            return self.call(f, args, kw)
        finally:
            self.tracing = old

    def truth(self, v, node=None, env=None):
        if isinstance(v, bool):
            return v
        if isinstance(v, (Arr, S)):
            a = asarr(v)
            self.concrete(v, "a truth value", "TracerBoolConversionError")
            if a.concrete and all(d == 1 for d in a.shape):
                e = a.get((0,) * a.ndim)
                if isinstance(e, bool):
                    return e
                return not ctx().decide(e, lambda s: s == 0)
            raise PyError("ValueError", "truth value of an array is ambiguous")
        if isinstance(v, Inst):
            f, _ = v.cls.lookup("__bool__")
            if f is not None:
                return self.truth(self.call(BoundMethod(f, v), [], {}))
            f, _ = v.cls.lookup("__len__")
            if f is not None:
                return self.truth(self.call(BoundMethod(f, v), [], {}))
            return True
        if isinstance(v, UnknownVal):
            raise Unsupported(f"branch on {v!r}")
        return bool(v) if isinstance(v, (int, Fraction, float, str, tuple, list, dict, set, range, type(None))) \
            else True

    def e_Attribute(self, e, env):
        o = self.eval(e.value, env)
        return self.getattr(o, e.attr, e)

    def getattr(self, o, name, node=None):
        if isinstance(o, Module):
            return self.module_getattr(o, name)
        if isinstance(o, NS):
            if name in o.table:
                return o.table[name]
            return UnknownVal(o.name + "." + name)
        if isinstance(o, Inst):
            if name in o.fields:
                return o.fields[name]
            v, c = o.cls.lookup(name)
            if c is not None:
                return self.bind(v, o, o.cls)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return o.fields
            ga, _ = o.cls.lookup("__getattr__")
            if ga is not None:
                return self.call(BoundMethod(ga, o), [name], {})
            nt = getattr(o.cls, "nt_fields", None)
            if nt is not None and name == "_replace":
                def rep(**kw):
                    r = Inst(o.cls)
                    r.fields = dict(o.fields)
                    r.fields.update(kw)
                    return r
                return Builtin("_replace", rep)
            if nt is not None and name == "_asdict":
                return Builtin("_asdict", lambda: {k: o.fields[k] for k in nt})
            raise PyError("AttributeError", f"'{o.cls.name}' object has no attribute '{name}'")
        if isinstance(o, Class):
            v, c = o.lookup(name)
            if c is not None:
                if isinstance(v, StaticMethod):
                    return v.f
                if isinstance(v, ClassMethod):
                    return BoundMethod(v.f, o)
                if isinstance(v, FieldSpec):
                    return v.default
                return v
            if name == "__name__":
                return o.name
            if name == "__qualname__":
                return o.qualname
            if name == "__mro__":
                return tuple(o.mro)
            if name == "__init__":
                return Builtin("__init__", lambda self_, *a, **k: self.auto_init(self_, a, k))
            if name == "__new__":
                return Builtin("__new__", lambda c2, *a, **k: Inst(c2))
            if name == "__annotations__":
                return dict(o.annotations)
            raise PyError("AttributeError", f"class {o.name} has no attribute '{name}'")
        if isinstance(o, SuperObj):
            mro = o.self_.cls.mro if isinstance(o.self_, Inst) else o.self_.mro
            k = mro.index(o.cls)
            for c in mro[k + 1:]:
                if name in c.ns:
                    return self.bind(c.ns[name], o.self_, c)
            if name == "__init__":
                return Builtin("object.__init__", lambda *a, **k: None)
            raise PyError("AttributeError", f"'super' object has no attribute '{name}'")
        if isinstance(o, (Arr, S)):
            return self.models.array_attr(self, asarr(o), name)
        if hasattr(o, "sa_getattr"):
            return o.sa_getattr(name)
        if isinstance(o, (Func, BoundMethod)):
            f = o.func if isinstance(o, BoundMethod) else o
            if name in ("__name__", "__qualname__"):
                return f.name
            if name == "__doc__":
                return None
            if name == "__func__":
                return f
            if name == "__self__" and isinstance(o, BoundMethod):
                return o.self_
            if name == "__wrapped__":
                return f
            if name in f.attrs:
                return f.attrs[name]
            if name == "setter":
                return Builtin("setter", lambda x: o)
            raise PyError("AttributeError", f"function has no attribute {name}")
        if isinstance(o, Property):
            if name in ("setter", "deleter"):
                return Builtin("setter", lambda f: o)
        if isinstance(o, (UnknownVal,)):
            return UnknownVal(o.name + "." + name)
        if isinstance(o, ExcInst):
            return o.args if name == "args" else UnknownVal(name)
        if isinstance(o, ExcClass) and name == "__name__":
            return o.name
        if isinstance(o, Builtin):
            sub = getattr(o, "table", None)
            if sub and name in sub:
                return sub[name]
            if name == "__name__":
                return o.name
            return UnknownVal(o.name + "." + name)
        r = self.models.py_attr(self, o, name)
        if r is not None:
            return r
        if isinstance(o, (int, Fraction, float)):
            raise PyError("AttributeError", f"'float' object has no attribute '{name}'")
        raise PyError("AttributeError", f"'{type(o).__name__}' object has no attribute '{name}'")

    def bind(self, v, o, cls):
        if isinstance(v, Property):
            return self.call(v.fget, [o], {})
        if isinstance(v, StaticMethod):
            return v.f
        if isinstance(v, ClassMethod):
            return BoundMethod(v.f, o.cls if isinstance(o, Inst) else o)
        if isinstance(v, (Func, Builtin)) and isinstance(o, Inst):
            return BoundMethod(v, o)
        if isinstance(v, FieldSpec):
            if v.factory is not None:
                return self.call(v.factory, [], {})
            return v.default
        return v

    def hasattr(self, o, name):
        try:
            self.getattr(o, name)
            return True
        except PyError as e:
            if e.cls == "AttributeError":
                return False
            raise

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        if isinstance(o, (UnknownVal, Class, ExcClass, self.models.PyType)) or (
                isinstance(o, Builtin) and not hasattr(o, "table_get")):
            return o        # typing subscripts
        k = self.eval_index(e.slice, env)
        return self.getitem(o, k, e)

    def getitem(self, o, k, node=None):
        if isinstance(o, Arr):
            if self.tracing:
                self.static_index(k)
            r = A.getitem(o, self.norm_index(k))
            if o.host is not None and (r.ndim or self.tracing is not None):
                r = A.alias(r, o.host if all(isinstance(x, (int, slice, type(Ellipsis))) for x in (k if isinstance(k, tuple) else (k,))) else "")
            return r
        if isinstance(o, S):
            return A.getitem(asarr(o), self.norm_index(k))
        if isinstance(o, (int, float, Fraction)):
            raise PyError("TypeError", f"'{type(o).__name__}' object is not subscriptable")
        if isinstance(o, dict):
            k = self.hashable(k)
            if k not in o:
                raise PyError("KeyError", repr(k))
            return o[k]
        if isinstance(o, (tuple, list, str, range)):
            if isinstance(k, slice):
                k = slice(*[self.as_int(x) if x is not None else None for x in (k.start, k.stop, k.step)])
                return o[k]
            i = self.as_int(k)
            try:
                return o[i]
            except IndexError:
                raise PyError("IndexError", "index out of range")
        if isinstance(o, Inst):
            nt = getattr(o.cls, "nt_fields", None)
            if nt is not None:
                return tuple(o.fields[f] for f in nt)[self.as_int(k) if not isinstance(k, slice) else k]
            f, _ = o.cls.lookup("__getitem__")
            if f is not None:
                return self.call(BoundMethod(f, o), [k], {}, node)
        if hasattr(o, "sa_getitem"):
            return o.sa_getitem(k)
        raise PyError("TypeError", f"'{type(o).__name__}' object is not subscriptable")

    def static_index(self, k):
        for x in k if isinstance(k, tuple) else (k,):
            if isinstance(x, slice):
                for e in (x.start, x.stop, x.step):
                    self.concrete(e, "a slice bound", "IndexError")
            elif isinstance(x, Arr) and x.kind == "b" and x.ndim:
                self.concrete(x, "the entries selected by a mask", "NonConcreteBooleanIndexError")

    def norm_index(self, k):
        if isinstance(k, tuple):
            return tuple(self.norm_index(x) for x in k)
        if isinstance(k, Fraction) and k.denominator == 1:
            return int(k)
        if isinstance(k, (Fraction, float)):
            raise PyError("TypeError", "float index")
        return k

    def as_int(self, k):
        if isinstance(k, bool):
            return int(k)
        if isinstance(k, int):
            return k
        if isinstance(k, Fraction) and k.denominator == 1:
            return int(k)
        if isinstance(k, (Arr, S)):
            self.concrete(k, "a Python index or size")
            e = asarr(k)
            if e.ndim == 0:
                x = e.get(())
                if isinstance(x, S) and x.aconst() is not None:
                    return x.aconst()
        raise Unsupported("data-dependent python index")

    def eval_index(self, sl, env):
        if isinstance(sl, ast.Slice):
            return slice(*[self.eval(x, env) if x is not None else None for x in (sl.lower, sl.upper, sl.step)])
        if isinstance(sl, ast.Tuple):
            return tuple(self.eval_index(x, env) if not isinstance(x, ast.Starred) else None for x in sl.elts) \
                if not any(isinstance(x, ast.Starred) for x in sl.elts) else tuple(self.seq(sl.elts, env))
        return self.eval(sl, env)

    def e_Slice(self, e, env):
        return self.eval_index(e, env)

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            en = env
            while en is not None and "__class__cell" not in en.vars:
                en = en.parent
            if en is None:
                raise Unsupported("super() outside a method")
            return SuperObj(en.vars["__class__cell"], en.vars["__self__cell"])
        f = self.eval(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.eval(k.value, env))
            else:
                kw[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kw, e, env)

    def call(self, f, args, kw, node=None, env=None):
        self.calls += 1
        if isinstance(f, Builtin):
            if getattr(f, "want_site", False):
                kw = dict(kw, _site=(node, env))
            if self.tracing and f.host and f.name.split(".")[-1] not in ("ndim", "shape", "size", "result_type"):
                for x in args:
                    self.concrete(x, f"a numpy array (for {f.name})", "TracerArrayConversionError")
            r = f.fn(*args, **kw)
            if self.tracing is not None and isinstance(r, S) and not f.host and not f.python:
                r = asarr(r)
            if isinstance(r, Arr):
                if f.host:
                    if r.host is None and (r.ndim or self.tracing is not None):
                        r = A.alias(r, "")
                elif r.host is not None and not f.view:
                    r = A.alias(r, None)
            return r
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.self_] + list(args), kw, node, env)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Class):
            return self.instantiate(f, args, kw)
        if isinstance(f, ExcClass):
            return ExcInst(f, tuple(args))
        if isinstance(f, Inst):
            g, _ = f.cls.lookup("__call__")
            if g is not None:
                return self.call(BoundMethod(g, f), args, kw, node, env)
        if hasattr(f, "sa_call"):
            return f.sa_call(*args, **kw)
        if isinstance(f, Property):
            raise PyError("TypeError", "property is not callable")
        if isinstance(f, UnknownVal):
            loc = f"{env.module.path}:{node.lineno}" if env is not None and node is not None else "?"
            raise Unsupported(f"call of unmodelled {f.name} at {loc}")
        if callable(f) and not isinstance(f, (Arr, S)):
            return f(*args, **kw)
        raise PyError("TypeError", f"{f!r} object is not callable")

    def call_traced(self, f, args, kw, names):
        g = copy.copy(f)
        g.traced = False
        if f.traced != "arrays":
            seen = {}
            args = [x if i in f.static or i < len(names) and names[i] in f.static else tracers(x, seen, self) for i, x in enumerate(args)]
            kw = {k: x if k in f.static else tracers(x, seen, self) for k, x in kw.items()}
        return self.staged(g, args, kw)

    def call_func(self, f, args, kw):
        node = f.node
        a = node.args
        env = Env(f.env if True else None, f.module)
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        if f.traced:
            args, kw = [unhost(x) for x in args], {k: unhost(x) for k, x in kw.items()}
            if self.tracing is not None:
                return self.call_traced(f, args, kw, names)
        vars_ = env.vars
        if len(args) > len(names):
            if a.vararg is None:
                raise PyError("TypeError", f"{f.name}() takes {len(names)} positional arguments but {len(args)} were given")
            vars_[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            vars_[a.vararg.arg] = ()
        for n, v in zip(names, args):
            vars_[n] = v
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n in vars_ and i < len(args):
                if n in kw and n not in [x.arg for x in a.posonlyargs]:
                    raise PyError("TypeError", f"{f.name}() got multiple values for argument '{n}'")
                continue
            if n in kw:
                vars_[n] = kw.pop(n)
            else:
                j = i - (len(names) - nd)
                if j >= 0:
                    vars_[n] = f.defaults[j]
                else:
                    raise PyError("TypeError", f"{f.name}() missing required argument: '{n}'")
        for k in a.kwonlyargs:
            if k.arg in kw:
                vars_[k.arg] = kw.pop(k.arg)
            elif k.arg in f.kwdefaults:
                vars_[k.arg] = f.kwdefaults[k.arg]
            else:
                raise PyError("TypeError", f"{f.name}() missing keyword argument: '{k.arg}'")
        if a.kwarg is not None:
            vars_[a.kwarg.arg] = kw
        elif kw:
            raise PyError("TypeError", f"{f.name}() got an unexpected keyword argument '{next(iter(kw))}'")
        if f.cls is not None and names:
            vars_["__class__cell"] = f.cls
            vars_["__self__cell"] = vars_[names[0]]
        self.functions.setdefault((f.module.name, f.qualname), (f.module.path, node.lineno))
        self.depth += 1
        if self.depth > 400:
            self.depth -= 1
            raise PyError("RecursionError", f"unbounded recursion through {f.qualname}")
        self.stack.append(f)
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, env)
            try:
                self.exec_block(node.body, env)
            except ReturnEx as r:
                return r.v
            return None
        finally:
            self.stack.pop()
            self.depth -= 1

    # ---------------------------------------------------------------- objects
    def field_specs(self, cls):
        out = {}
        for c in reversed(cls.mro):
            for n in c.annotations:
                d = c.ns.get(n)
                out[n] = d if isinstance(d, FieldSpec) else FieldSpec(d, n in c.ns)
        return out

    def instantiate(self, cls, args, kw):
        nt = getattr(cls, "nt_fields", None)
        if nt is None and any(getattr(b, "is_namedtuple", False) for b in cls.mro):
            nt = cls.nt_fields = list(cls.annotations)
        o = Inst(cls)
        if nt is not None:
            for n, v in zip(nt, args):
                o.fields[n] = v
            for k, v in kw.items():
                o.fields[k] = v
            for n in nt:
                if n not in o.fields:
                    if n in cls.ns:
                        o.fields[n] = cls.ns[n]
                    else:
                        raise PyError("TypeError", f"{cls.name}() missing argument '{n}'")
            return o
        o.initialising = True
        f, c = cls.lookup("__init__")
        if f is not None:
            self.call(BoundMethod(f, o), args, kw)
            # equinox: fields with defaults that __init__ did not set
            for n, sp in self.field_specs(cls).items():
                if n not in o.fields:
                    if sp.has_default:
                        o.fields[n] = sp.default
                    elif sp.factory is not None:
                        o.fields[n] = self.call(sp.factory, [], {})
                    elif any(getattr(b, "is_eqx", False) for b in cls.mro):
                        raise PyError("ValueError", f"The following fields were not initialised during __init__: {n}")
        else:
            self.auto_init(o, args, kw)
        for c in cls.mro:
            if "__check_init__" in c.ns:
                self.call(BoundMethod(c.ns["__check_init__"], o), [], {})
        o.initialising = False
        return o

    def auto_init(self, o, args, kw):
        specs = self.field_specs(o.cls)
        names = [n for n, s in specs.items() if s.init]
        if len(args) > len(names):
            raise PyError("TypeError", f"{o.cls.name}.__init__() takes {len(names)} arguments but {len(args)} were given")
        kw = dict(kw)
        for n, v in zip(names, args):
            o.fields[n] = v
        for n in names[len(args):]:
            if n in kw:
                o.fields[n] = kw.pop(n)
            elif specs[n].has_default:
                o.fields[n] = specs[n].default
            elif specs[n].factory is not None:
                o.fields[n] = self.call(specs[n].factory, [], {})
            else:
                raise PyError("TypeError", f"{o.cls.name}.__init__() missing required argument: '{n}'")
        if kw:
            raise PyError("TypeError", f"{o.cls.name}.__init__() got an unexpected keyword argument '{next(iter(kw))}'")
        pi, _ = o.cls.lookup("__post_init__")
        if pi is not None:
            self.call(BoundMethod(pi, o), [], {})

    def snapshot(self, f):
        """freeze the variables a function closes over (jax evaluates eagerly)"""
        memo = {}

        def cenv(e):
            if e is None or e.parent is None:
                return e
            if id(e) in memo:
                return memo[id(e)]
            n = Env(None, e.module, e.is_class)
            memo[id(e)] = n
            n.parent = cenv(e.parent)
            n.globals_, n.nonlocals_ = e.globals_, e.nonlocals_
            for k, v in e.vars.items():
                n.vars[k] = cval(v)
            return n

        def cval(v):
            if isinstance(v, Func) and v.env is not None and v.env.parent is not None:
                g = Func(v.node, cenv(v.env), v.module, v.qualname, v.defaults, v.kwdefaults, v.cls)
                g.attrs = v.attrs
                return g
            return v
        if isinstance(f, Func):
            return cval(f)
        return f


def unwrap(v):
    if isinstance(v, Property):
        return unwrap(v.fget)
    if isinstance(v, (StaticMethod, ClassMethod)):
        return unwrap(v.f)
    if isinstance(v, Func):
        return [v]
    return []


def _load(t):
    import copy
    t2 = copy.copy(t)
    t2.ctx = ast.Load()
    return t2
