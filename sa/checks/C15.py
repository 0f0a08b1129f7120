"""Composition laws: sums, products, scalings and wrappers of models."""
from ..api import *
from .. import generic, compose, num as N
from ..compose import g, addk, mulk, b


def run(R):
    B = "smolgp.kernels.base."

    def kern(w, k, x1, x2):
        return A.num(A.scal(M.AA(w.meth(k, "evaluate", arr0(x1), arr0(x2)))))

    t, dt = (lambda: atom("t")), (lambda: pos("lagv"))
    law = {
        "sum": (addk(g("a"), g("b", 1)), lambda a, bb, c, s: a + bb, B + "Sum"),
        "sum of three": (addk(addk(g("a"), g("b", 1)), g("c")), lambda a, bb, c, s: a + bb + c, B + "Sum"),
        "right-nested sum": (addk(g("a"), addk(g("b", 1), g("c"))), lambda a, bb, c, s: a + bb + c, B + "Sum"),
        "python sum()": (lambda w: w.it.binop("Add", w.it.binop("Add", 0, g("a")(w)), g("c")(w)), lambda a, bb, c, s: a + c, B + "Sum"),
        "product": (mulk(g("a"), g("c")), lambda a, bb, c, s: a * c, B + "Product"),
        "product with d=1": (mulk(g("b", 1), g("a")), lambda a, bb, c, s: a * bb, B + "Product"),
        "product of sum": (mulk(addk(g("a"), g("b", 1)), g("c")), lambda a, bb, c, s: (a + bb) * c, B + "Product"),
        "sum of product": (addk(mulk(g("a"), g("c")), g("b", 1)), lambda a, bb, c, s: a * c + bb, B + "Sum"),
        "scalar * kernel": (lambda w: w.it.binop("Mult", compose.scl(), g("a")(w)), lambda a, bb, c, s: s * a, B + "Scale"),
        "kernel * scalar": (lambda w: w.it.binop("Mult", g("a")(w), compose.scl()), lambda a, bb, c, s: s * a, B + "Scale"),
        "python float * kernel": (lambda w: w.it.binop("Mult", Fraction(5, 2), g("a")(w)), lambda a, bb, c, s: a * Fraction(5, 2), B + "Scale"),
        "scalar * (sum)": (lambda w: w.it.binop("Mult", compose.scl(), addk(g("a"), g("b", 1))(w)), lambda a, bb, c, s: s * (a + bb), B + "Scale"),
        "sum with a scaled term": (addk(lambda w: w.it.binop("Mult", compose.scl(), g("a")(w)), g("b", 1)), lambda a, bb, c, s: s * a + bb, B + "Sum"),
        "product with a scaled factor": (mulk(lambda w: w.it.binop("Mult", compose.scl(), g("a")(w)), g("c")), lambda a, bb, c, s: s * a * c, B + "Product"),
    }
    for name, (build, want, where) in law.items():
        def f(w, build=build, want=want):
            k = build(w)
            ks = [g("a")(w), g("b", 1)(w), g("c")(w)]
            s = compose.scl().get(())
            for x1, x2, nm in ((t(), t() + dt(), "earlier, later"), (t() + dt(), t(), "later, earlier"), (t(), t(), "same point")):
                vals = [kern(w, q, x1, x2) for q in ks]
                w.eq(f"covariance at ({nm})", arr0(kern(w, k, x1, x2)), arr0(want(*vals, s)))
            vals = [kern(w, q, t(), t()) for q in ks]
            w.eq("variance", w.meth(k, "evaluate_diag", arr0(t())), arr0(want(*vals, s)))
            # the composed model is itself a consistent model
            F, P = M.AA(w.meth(k, "design_matrix")), M.AA(w.meth(k, "stationary_covariance"))
            n = F.shape[0]
            w.eqb("dimension", w.attr(k, "dimension"), n)
            w.eq("Pinf symmetric", P, T(P))
            L, Qc = M.AA(w.meth(k, "noise_effect_matrix")), M.AA(w.meth(k, "noise"))
            w.eq("Lyapunov equation", plus(plus(mm(F, P), mm(P, T(F))), mm(L, Qc, T(L))), A.full((n, n), 0))
            d = N.lag()
            Am = M.AA(w.meth(k, "transition_matrix", arr0(const(0)), arr0(d)))
            Q = M.AA(w.meth(k, "process_noise", arr0(const(0)), arr0(d)))
            w.eq("process noise", Q, minus(P, mm(Am, P, T(Am))))
            ok, i = eq_deriv(Am, mm(F, Am), N.KSER - 4)
            if not ok:
                w.bad("transition matrix", f"entry {divmod(i, n)} does not solve A' = F A")
            Hm = M.AA(w.meth(k, "observation_model", arr0(t())))
            w.eqb("observation row shape", tuple(Hm.shape), (1, n))
            w.eq("observation_matrix agrees with observation_model", w.meth(k, "observation_matrix", arr0(t())), Hm)
            w.eq("reset matrix of an instantaneous model is the identity", w.meth(k, "reset_matrix", 0), A.eye(n))
        R.obl(f"{name}: composition law", f, where)

    # a user-written wrapper that overrides nothing is transparent; overriding H is honoured
    def wrap_src(w):
        import ast
        from .. import interp as I
        if "sa_wrap" not in w.it.modules:
            m = I.Module("sa_wrap", "/verif/sa/checks/C15.py", w.it)
            w.it.modules["sa_wrap"] = m
            m.loaded = True
            m.tree = ast.parse("""
from smolgp.kernels.base import Wrapper
import jax.numpy as jnp
class Plain(Wrapper):
    pass
class Doubled(Wrapper):
    def observation_matrix(self, X):
        return 2.0 * self.kernel.observation_matrix(X)
""")
            w.it.exec_block(m.tree.body, m.env)
        return w.it.modules["sa_wrap"].env.vars

    for cls, fac in (("Plain", 1), ("Doubled", 4)):
        def f(w, cls=cls, fac=fac):
            a = g("a")(w)
            k = w.call(wrap_src(w)[cls], name="W", kernel=a)
            for x1, x2 in ((t(), t() + dt()), (t() + dt(), t())):
                w.eq("covariance", arr0(kern(w, k, x1, x2)), arr0(kern(w, a, x1, x2) * fac))
            for m_ in ("design_matrix", "stationary_covariance", "noise", "noise_effect_matrix"):
                w.eq(m_, w.meth(k, m_), w.meth(a, m_))
            for m_ in ("transition_matrix", "process_noise"):
                w.eq(m_, w.meth(k, m_, arr0(t()), arr0(t() + dt())), w.meth(a, m_, arr0(t()), arr0(t() + dt())))
            w.eqb("dimension", w.attr(k, "dimension"), w.attr(a, "dimension"))
            ki = generic.integrated(w, "q", 2, 2)
            k2 = w.call(wrap_src(w)[cls], name="W2", kernel=ki)
            w.eq("reset matrix", w.meth(k2, "reset_matrix", arr0(const(1))), w.meth(ki, "reset_matrix", arr0(const(1))))
            w.eq("sortable coordinate", w.meth(k2, "coord_to_sortable", (arr0(t()), arr0(dt()), arr0(const(0)))), arr0(t()))
        R.obl(f"wrapper [{cls}]: transparency", f, B + "Wrapper")

    # resets of compositions act on each part
    def fr(w):
        a, c = generic.integrated(w, "a", 2, 2), generic.integrated(w, "c", 1, 2)
        s = w.it.binop("Add", a, c)
        p = w.it.binop("Mult", a, c)
        for inst in (0, 1):
            i = arr0(const(inst))
            ra, rc = M.AA(w.meth(a, "reset_matrix", i)), M.AA(w.meth(c, "reset_matrix", i))
            na, nc = ra.shape[0], rc.shape[0]
            Z1, Z2 = A.full((na, nc), 0), A.full((nc, na), 0)
            bd = A.concatenate([A.concatenate([ra, Z1], 1), A.concatenate([Z2, rc], 1)], 0)
            w.eq("reset of a sum", w.meth(s, "reset_matrix", i), bd)
            w.eq("reset of a product", w.meth(p, "reset_matrix", i), A.kron(ra, rc))
    R.obl("reset matrices of compositions", fr, B + "Sum.reset_matrix")

    # illegal compositions are rejected
    def fx(w):
        a = g("a")(w)
        tk = w.call("tinygp.kernels.stationary.Exp", scale=arr0(pos("s")))
        for nm, op, x, y in (("kernel + number", "Add", a, Fraction(3, 2)), ("number + kernel", "Add", Fraction(3, 2), a),
                             ("kernel + tinygp kernel", "Add", a, tk), ("kernel * tinygp kernel", "Mult", a, tk),
                             ("kernel * vector", "Mult", a, A.stack([arr0(const(1)), arr0(const(2))])),
                             ("vector * kernel", "Mult", A.stack([arr0(const(1)), arr0(const(2))]), a)):
            try:
                w.it.binop(op, x, y)
            except PyError as e:
                if e.cls not in ("ValueError", "TypeError"):
                    w.bad(nm, f"raises {e}")
                continue
            w.bad(nm, "is accepted although it has no state space meaning")
    R.obl("unsupported compositions are rejected", fx, B + "StateSpaceModel.__add__")
    return R.finish("proof", {"explanation":
        "composition of opaque models (arbitrary F, Pinf, H(x), arbitrary eigen-structure) evaluated by value numbering"}, 18)
