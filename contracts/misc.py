"""Contracts of conjugate_gradient (C20), inverse_spectral_fact (C21), spectral_fact (C22) and fib (C23)."""
import itertools

from .base import *
from pyvc.interp import COS, LOG, PI, SQRT
from pyvc.lib import cexp
from pyvc.loops import SpecMismatch

CG = "ellalgo.conjugate_gradient:conjugate_gradient"


class CGTask(Task):
    qual = CG
    title = qual

    def setup(self, I):
        I.nodiv = True  # quotients may be arbitrary: the claim does not depend on the step lengths
        I.name_squares = True
        n = I.fresh("n", IZ)
        I.assume(n >= 1)
        A = I.symarr("A", (n, n), owner="A")
        b = I.symarr("b", (n,), owner="b")
        a_, b_ = A.snap(), b.snap()
        tol, mx = I.fresh("tol"), I.fresh("max_iter", IZ)
        I.assume(mx >= 0)
        if I.choose(2, "x0") == 0:
            x0, xs = None, lambda k: 0
        else:
            x0 = I.symarr("x0", (n,), owner="x0")
            xs = x0.snap()

        def resid(x):
            return lambda i: sub(b_(i), I.sumover(0, n, lambda k: mul(a_(i, k), x(k))))

        def autos(v):
            names = v.mod_locals(("arr",))
            every = [k for k, x in v.fr.env.items() if isinstance(x, Arr) and x.ndim == 1 and k not in v.targets]
            out = []
            for s, r in itertools.permutations(every, 2):
                if s not in names and r not in names:
                    continue

                def fn(w, l, s=s, r=r):
                    x, y = w.fr.env.get(s), w.fr.env.get(r)
                    if not (isinstance(x, Arr) and isinstance(y, Arr)):
                        return False
                    fx, fy = resid(x.snap()), y.snap()
                    return Q(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), same(fy(i), fx(i))))
                out.append((f"{r} is the residual of {s}", fn))
            return out

        I.extra_autos = autos
        return [A, b, x0, tol, mx], {}, (n, resid, xs, tol)

    def norm(self, I, n, r, name):
        T = I.freshfn(name, 1)
        I.assume(Q(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), T(i) == R(r(i)))))
        t = I.sumover(0, n, lambda i: mul(T(Z(i)), T(Z(i))))
        return SQRT(z3.simplify(R(t)))

    def check(self, I, ctx, out):
        n, resid, xs, tol = ctx
        if out[0] == "raise":
            I.prove("only ValueError is raised", out[1] == "ValueError", assume=False)
            I.prove("a starting point that solves the system is not refused", NOT(cmp("<", self.norm(I, n, resid(xs), "res0"), tol)), assume=False)
            return
        x = out[1]
        if not (isinstance(x, Arr) and x.ndim == 1):
            raise Unsupported("result")
        I.same_dim(x.shape[0], n)
        I.prove("the true residual of the result is below tol", cmp("<", self.norm(I, n, resid(x.snap()), "res1"), tol), assume=False)


class InvSpecTask(Task):
    qual = "ellalgo.oracles.spectral_fact:inverse_spectral_fact"
    title = qual

    def setup(self, I):
        n = I.fresh("n", IZ)
        I.assume(n >= 1)
        h = I.symarr("h", (n,), owner="h")
        return [h], {}, (n, h.snap())

    def check(self, I, ctx, out):
        n, h = ctx
        if out[0] == "raise":
            I.prove(f"no exception {out[1]}", False, assume=False)
            return
        r = out[1]
        if not (isinstance(r, Arr) and r.ndim == 1):
            raise Unsupported("result")
        I.prove("the result has length n", cmp("==", r.shape[0], n), assume=False)
        I.assume(cmp("==", r.shape[0], n))
        s = r.snap()
        I.prove("r[t] = sum_k h[k] h[k+t]", Q(1, lambda t: z3.Implies(z3.And(t >= 0, t < n),
                same(s(t), I.sumover(0, sub(n, t), lambda k: mul(h(k), h(add(k, t))))))), assume=False)


class SpecTask(Task):
    """Kolmogorov's construction on a uniform grid of m >= 100 n frequencies; lean/Spectral.lean leads from it to the property"""
    qual = "ellalgo.oracles.spectral_fact:spectral_fact"
    title = qual

    def setup(self, I):
        n = I.fresh("n", IZ)
        I.assume(n >= 1)
        I.transforms, I.extremes = [], []
        r = I.symarr("r", (n,), owner="autocorrelation")
        return [r], {}, (n, r.snap())

    def check(self, I, ctx, out):
        n, r = ctx
        def split(i, m):  # Sums.lean: the first term taken out of the sum
            w = truediv(mul(2, PI), m)
            tail = I.sumover(0, sub(n, 1), lambda k: mul(COS(z3.simplify(R(i) * R(w) * R(add(1, k)))), r(add(1, k))))
            return self.response(I, r, n, m, i) == R(r(0)) + 2 * R(tail)

        for w, mw in I.extremes:
            I.assume(z3.Implies(n >= 1, split(w, mw)))
        if out[0] == "raise":
            # an exception needs a sample of the response that is not positive
            if out[1] not in ("RuntimeError", "ValueError"):
                I.prove(f"no exception {out[1]}", False, assume=False)
                return
            for w, m in I.extremes:
                I.assume(z3.Implies(z3.And(w >= 0, w < Z(m)), self.response(I, r, n, m, w) > 0))
            I.prove("an autocorrelation with positive response on the grid is not refused", False, assume=False)
            return
        h = out[1]
        if not (isinstance(h, Arr) and h.ndim == 1):
            raise Unsupported("result")
        if [t[0] for t in I.transforms] != [False, True, True]:
            raise Unsupported("not a transform of the log-magnitude, an inverse one for the phase and an inverse one for the result")
        (_, m, alpha, F), (_, m2, X, phi), (_, n3, Y, res) = I.transforms
        I.prove("one grid", AND(cmp("==", m2, m), cmp("==", n3, n)))
        I.prove("the result has length n", cmp("==", h.shape[0], n), assume=False)
        I.prove("the grid has at least 100 n frequencies", cmp(">=", m, 100 * n), assume=False)
        step = z3.simplify(Z(m))
        K = step.arg(0).as_long() if z3.is_app(step) and step.decl().kind() == z3.Z3_OP_MUL and z3.is_int_value(step.arg(0)) else None
        if K is None or not step.arg(1).eq(n):
            raise Unsupported("grid size is not a multiple of n")
        # the response is positive on the grid (outside that the result is unspecified)
        for w, mw in I.extremes:
            I.assume(z3.Implies(z3.And(w >= 0, w < Z(mw)), self.response(I, r, n, mw, w) > 0))
        I.assume(Q(1, lambda i: z3.Implies(z3.And(i >= 0, i < Z(m)), self.response(I, r, n, m, i) > 0)))
        I.assume(Q(1, lambda i: z3.Implies(z3.And(i >= 0, i < Z(m)), split(i, m))))
        I.prove("alpha = 1/2 log R on the grid", Q(1, lambda i: z3.Implies(z3.And(i >= 0, i < Z(m)),
                R(alpha(i)) == z3.Q(1, 2) * LOG(z3.simplify(self.response(I, r, n, m, i))))), assume=False)
        sgn = lambda l, x: z3.If(z3.Or(l == 0, 2 * l == Z(m)), z3.RealVal(0), z3.If(2 * l < Z(m), x, -x))

        def pointwise(what, cnt, f, g):
            for part in ("re", "im"):
                I.prove(f"{what} ({part})", Q(1, lambda l: z3.Implies(z3.And(l >= 0, l < Z(cnt)), same(getattr(cx(f(l)), part), getattr(cx(g(l)), part)))), assume=False)

        pointwise("the phase is the inverse transform of i sgn(l) times the transform of alpha", m, X,
                  lambda l: Cx(sgn(Z(l), -R(F(l).im)), sgn(Z(l), R(F(l).re))))
        pointwise("the spectrum is exp(alpha + i phi) at the n frequencies", n, Y, lambda j: cexp(Cx(alpha(mul(K, j)), phi(mul(K, j)).re)))
        s = h.snap()
        I.prove("h is the real part of the inverse transform", Q(1, lambda t: z3.Implies(z3.And(t >= 0, t < n), same(s(t), res(t).re))), assume=False)

    def response(self, I, r, n, m, i):
        w = truediv(mul(2, PI), m)
        return R(I.sumover(0, n, lambda k: mul(z3.If(Z(k) < 1, z3.RealVal(1), 2 * COS(z3.simplify(R(i) * R(w) * R(k)))), r(k))))


class FibTask(Task):
    qual = "ellalgo.skeleton:fib"
    title = qual

    def setup(self, I):
        n = I.fresh("n", IZ)
        F = I.freshfn("F", 1, IZ)
        I.assume(z3.And(F(0) == 0, F(1) == 1))
        I.assume(Q(1, lambda k: z3.Implies(k >= 0, F(k + 2) == F(k + 1) + F(k))))
        fa = I.foralls[-1]
        fa.triggers = [(F, {0: (0, 0)}), (F, {0: (0, 2)}), (F, {0: (0, 1)})]
        fa.full = True

        def autos(v):
            out = []
            ints = v.mod_locals(("int",))
            for x in ints:
                for c in range(0, 4):
                    out.append((f"{x} is F(it+{c})", lambda w, l, x=x, c=c: cmp("==", w.fr.env[x], F(Z(add(w.it, c)))) if is_intlike(w.fr.env[x]) else False))
                for c in range(-2, 3):
                    for y in ints:
                        if x != y:
                            out.append((f"{x} is F(n-{y}+{c})", lambda w, l, x=x, y=y, c=c: cmp("==", w.fr.env[x], F(Z(add(sub(n, w.fr.env[y]), c)))) if is_intlike(w.fr.env[x]) and is_intlike(w.fr.env[y]) else False))
                for y in ints:
                    if x != y:
                        for c in range(-3, 4):
                            out.append((f"{x} is F({y}+{c})", lambda w, l, x=x, y=y, c=c: cmp("==", w.fr.env[x], F(Z(add(w.fr.env[y], c)))) if is_intlike(w.fr.env[x]) and is_intlike(w.fr.env[y]) else False))
            for x in ints:
                out.append((f"{x} <= n", lambda w, l, x=x: cmp("<=", w.fr.env[x], n)))
                out.append((f"{x} <= n+1", lambda w, l, x=x: cmp("<=", w.fr.env[x], n + 1)))
                out.append((f"{x} >= 1", lambda w, l, x=x: cmp(">=", w.fr.env[x], 1)))
                out.append((f"{x} >= 0", lambda w, l, x=x: cmp(">=", w.fr.env[x], 0)))
            return out

        I.extra_autos = autos
        return [n], {}, (n, F)

    def check(self, I, ctx, out):
        n, F = ctx
        if out[0] == "raise":
            I.prove("AssertionError exactly for n <= 0", n <= 0 if out[1] == "AssertionError" else False, assume=False)
            return
        I.prove("n <= 0 is refused", n > 0, assume=False)
        I.assume(n > 0)
        if not is_intlike(out[1]):
            raise Unsupported("result")
        I.prove("the result is the n-th Fibonacci number", cmp("==", out[1], F(n)), assume=False)


def tasks(prop):
    return [c(prop) for c in {"C20": [CGTask], "C21": [InvSpecTask], "C22": [SpecTask], "C23": [FibTask]}[prop]]
