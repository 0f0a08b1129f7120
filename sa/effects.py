"""Effects: what a call may have changed apart from returning a result.

A snapshot is a fingerprint of everything a program can see before the call: every module-level name, class, function
attribute, default argument and closure of the analysed package, and the objects handed to the call.  A call without side
effects leaves every path of the snapshot as it was.  Arrays of the caller are marked as mutable numpy arrays; in-place
operations on them (or on views of them) are recorded by the interpreter.
"""
import ast
import os

from . import arr as A
from . import interp as I
from . import models as M
from .num import S


def token(v):
    if isinstance(v, (bool, int, float, str, bytes, type(None))):
        return repr(v)
    if isinstance(v, S):
        return ("scalar", v.key)
    return None


class Snapshot:
    def __init__(self, it, roots):
        self.it, self.out, self.seen, self.keep = it, {}, set(), []
        for name, m in sorted(it.modules.items()):
            if name.split(".")[0] == "smolgp" and isinstance(m, I.Module):
                for k, v in m.env.vars.items():
                    self.walk(f"{name}.{k}", v)
        for k, v in roots.items():
            self.walk(k, v)

    def walk(self, path, v):
        t = token(v)
        if t is None and type(v).__name__ == "Fraction":
            t = repr(v)
        if t is not None:
            self.out[path] = t
            return
        self.keep.append(v)
        self.out[path] = (type(v).__name__, id(v))
        if isinstance(v, I.BoundMethod) or isinstance(v, tuple):
            self.out[path] = (type(v).__name__,)        # immutable: only what they hold matters
        if id(v) in self.seen:
            return
        self.seen.add(id(v))
        if isinstance(v, (list, tuple)):
            self.out[path] += (len(v),)
            for i, e in enumerate(v):
                self.walk(f"{path}[{i}]", e)
        elif isinstance(v, dict):
            self.out[path] += (len(v),)
            for k, e in v.items():
                self.walk(f"{path}[{k!r}]", e)
        elif isinstance(v, (set, frozenset)):
            self.out[path] += (tuple(sorted(map(repr, v))),)
        elif isinstance(v, I.Inst):
            self.out[path] += (tuple(sorted(v.fields)),)
            for k, e in v.fields.items():
                self.walk(f"{path}.{k}", e)
        elif isinstance(v, I.Class):
            if v.module is not None and not v.module.name.startswith("smolgp"):
                return
            self.out[path] += (tuple(sorted(v.ns)),)
            for k, e in v.ns.items():
                self.walk(f"{path}.{k}", e)
        elif isinstance(v, I.Func):
            for k, e in v.attrs.items():
                self.walk(f"{path}.{k}", e)
            for i, e in enumerate(list(v.defaults or ()) + list((v.kwdefaults or {}).values())):
                self.walk(f"{path}(default {i})", e)
            env = v.env
            while env is not None and env.parent is not None:       # enclosing functions
                if id(env) not in self.seen:
                    self.seen.add(id(env))
                    self.keep.append(env)
                    for k, e in env.vars.items():
                        self.walk(f"{path}<closure>.{k}", e)
                env = env.parent
        elif isinstance(v, (I.Property, I.StaticMethod, I.ClassMethod)):
            self.walk(path + "()", getattr(v, "fget", None) or getattr(v, "f", None))
        elif isinstance(v, I.BoundMethod):
            self.walk(path + ".__self__", v.self_)
        elif isinstance(v, A.Arr) and v.data is not None:
            self.out[path] += (tuple(token(x) for x in v.data.flat),)

    def changed(self, other):
        out = []
        for k in sorted(set(self.out) | set(other.out), key=lambda s: (len(s), s)):
            a, b = self.out.get(k), other.out.get(k)
            if a == b:
                continue
            if any(k.startswith(x) for x in out):
                continue
            out.append(k)
        return out


def load_all(it):
    root = it.roots["smolgp"]
    for path in modules(root):
        m = os.path.relpath(path, root)[:-3].replace(os.sep, ".")
        m = "smolgp" + ("" if m == "__init__" else "." + (m[:-9] if m.endswith(".__init__") else m))
        it.load(m)


def pure(w, roots, call):
    """run the call; anything it changed is recorded against the obligation"""
    it = w.it
    load_all(it)
    before = Snapshot(it, roots)
    it.effects.clear()
    r = call()
    after = Snapshot(it, roots)
    for e in it.effects:
        w.bad("", e)
    for k in before.changed(after)[:3]:
        w.bad("", f"changes {k}")
    it.effects.clear()
    return r


def given(name, x):
    """the caller's array: a mutable numpy array"""
    return A.alias(M.AA(x), name)


# ------------------------------------------------------------------ syntax rules for everything, reached or not
IMPURE = {"random": None, "secrets": None, "uuid": None, "time": None, "datetime": None, "numpy.random": None, "os.environ": None,
          "os.getenv": None, "os.putenv": None, "os.urandom": None}
SHARED = ("jax.config.update", "numpy.seterr", "numpy.random.seed", "os.chdir", "sys.setrecursionlimit", "warnings.filterwarnings", "warnings.simplefilter")


def modules(root):
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if f.endswith(".py"):
                yield os.path.join(d, f)


def imports(tree):
    names = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                names[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names:
                names[a.asname or a.name] = n.module + "." + a.name
    return names


def dotted(e, names):
    if isinstance(e, ast.Attribute):
        b = dotted(e.value, names)
        return b and b + "." + e.attr
    if isinstance(e, ast.Name):
        return names.get(e.id)
    return None


def syntax(path):
    """(functions, [(function, line, what)]) : uses of hidden state in function bodies"""
    tree = ast.parse(open(path, encoding="utf-8").read())
    names = imports(tree)
    out, fns = [], []

    def visit(fn, q):
        fns.append(q)
        body = fn.body if isinstance(fn.body, list) else [fn.body]
        declared = set()
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, ast.Global):
                    declared |= set(n.names)
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
                    for t in n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and x.id in declared and isinstance(x.ctx, (ast.Store, ast.Del)):
                                out.append((q, n.lineno, f"assigns the module-level name '{x.id}'"))
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                                d = dotted(x.value, names)
                                if d is not None and d.split(".")[0] != "self":
                                    out.append((q, n.lineno, f"assigns an attribute of {d}"))
                if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load):
                    d = dotted(n, names)
                    if d is None:
                        continue
                    if any(d == k or d.startswith(k + ".") for k in IMPURE):
                        out.append((q, n.lineno, f"depends on hidden state: {d}"))
                    if d in SHARED:
                        out.append((q, n.lineno, f"changes shared state: {d}"))

    def walk(node, q):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                visit(n, q + n.name)
            elif isinstance(n, ast.ClassDef):
                walk(n, q + n.name + ".")
            else:
                walk(n, q)
    walk(tree, "")
    return fns, sorted(set(out))
