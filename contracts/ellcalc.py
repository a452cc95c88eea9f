"""Contracts of EllCalcCore and EllCalc (update parameters of a cut)."""
from fractions import Fraction

import z3

from .base import *
from pyvc.interp import SQRT

CORE = "ellalgo.ell_calc_core:EllCalcCore"
CALC = "ellalgo.ell_calc:EllCalc"
H = Fraction(1, 2)


def sqr(I, x):
    s = SQRT(z3.simplify(R(x)))
    I.assume(z3.And(s >= 0, s * s == R(x)))
    return s


# ----------------------------------------------------------------- specification functions (documented closed forms)

def spec_bias(I, n, b, tau):
    n, b, tau = R(n), R(b), R(tau)
    return ((tau + n * b) / (n + 1), 2 * (tau + n * b) / ((n + 1) * (tau + b)),
            n * n / (n * n - 1) * (1 - (b / tau) * (b / tau)))


def spec_par(I, n, b0, b1, T):
    n, b0, b1, T = R(n), R(b0), R(b1), R(T)
    z0, z1 = T - b0 * b0, T - b1 * b1
    xi = sqr(I, z0 * z1 + (n / 2 * (b1 * b1 - b0 * b0)) * (n / 2 * (b1 * b1 - b0 * b0)))
    eta = T + n * b0 * b1
    bs = b0 + b1
    sigma = 2 * eta / (T + b0 * b1 + n / 2 * bs * bs + xi)
    return sigma * bs / 2, sigma, n * n / (n * n - 1) * ((z0 + z1) / 2 + xi / n) / T


def contain(n, T, rsd, lo, hi, s):
    """the scalar form of containment: for every s in [lo, hi] (hi, lo offsets along the gradient, |s| <= tau)
    (1-sigma)(T(1-delta)+2 rho s+rho^2)+sigma (s+rho)^2 <= 0, with 0 <= sigma < 1 and delta > 0"""
    rho, sg, de = [R(x) for x in rsd]
    return z3.And(sg >= 0, sg < 1, de > 0,
                  z3.Implies(z3.And(R(lo) <= s, s <= R(hi), s * s <= R(T)),
                             (1 - sg) * (R(T) * (1 - de) + 2 * rho * s + rho * rho) + sg * (s + rho) * (s + rho) <= 0))


def shrink(n, rsd):
    """0 < sigma < 1, delta > 0 and delta (n - sigma) <= n: then delta^n (1-sigma) < 1 (Lean: volume_factor_lt_one)"""
    rho, sg, de = [R(x) for x in rsd]
    n = R(n)
    return z3.And(sg > 0, sg < 1, de > 0, de * (n - sg) <= n)


S = z3.Real("s!ghost")  # an arbitrary position along the gradient (never constrained except by the cut itself)
BIG = None


def clause(prop, I, n, T, rsd, b0, b1, spec):
    """postcondition of a successful cut, per property. b1 None: one-sided.
    The remaining slab is s in [-b1, -b0]; assumed to have an interior where the property says so."""
    out = []
    lo = (-R(b1)) if b1 is not None else None
    tau2 = R(T)
    if prop == "C05":
        out.append(("0 < sigma < 1 and delta > 0", z3.And(R(rsd[1]) > 0, R(rsd[1]) < 1, R(rsd[2]) > 0)))
    if prop in ("C01", "C03"):
        loz = S if lo is None else lo
        out.append(("no point satisfying the cut is discarded (scalar form)", contain(n, T, rsd, loz, -R(b0), S)))
    if prop == "C02":
        out.append(("strictly smaller volume", shrink(n, rsd)))
        for nm, a, b in zip(("rho", "sigma", "delta"), rsd, spec()):
            out.append((f"{nm} has its closed form", same(a, b)))
    if prop == "C06":
        for nm, a, b in zip(("rho", "sigma", "delta"), rsd, spec()):
            out.append((f"{nm} agrees with the common closed form", same(a, b)))
    return out


def interior_bias(b, T):
    """b < tau, b > -tau (the remaining cap has an interior)"""
    return z3.Or(R(b) < 0, R(b) * R(b) < R(T))


# ----------------------------------------------------------------- EllCalcCore

class CoreFn(Contract):
    """shared by the tasks (proving) and the calls (assuming)"""
    params = ()

    def pre(self, n, e):
        raise NotImplementedError

    def slab(self, e):
        """(T, b0, b1 or None)"""
        raise NotImplementedError

    def spec(self, I, n, e):
        raise NotImplementedError

    def guard(self, n, e):
        return z3.BoolVal(True)

    def clauses(self, I, n, e, rsd):
        T, b0, b1 = self.slab(e)
        g = self.guard(n, e)
        return [(nm, z3.Implies(g, f)) for nm, f in clause(self.prop, I, n, T, rsd, b0, b1, lambda: self.spec(I, n, e))]

    def call(self, I, env):
        self_ = env["self"]
        n = getattr(self_, "ghost_n", None)
        if n is None:
            return NotImplemented
        e = {k: env[k] for k in self.params if k in env}
        if len(e) != len(self.params) or not all(is_num(v) for v in e.values()):
            return NotImplemented
        I.prove(f"precondition of {self.qual.split(':')[1]}", self.pre(n, e), kind="pre")
        rsd = tuple(I.fresh(x) for x in ("rho", "sigma", "delta"))
        for _, f in self.clauses(I, n, e, rsd):
            I.assume(f)
        return rsd


class Bias(CoreFn):
    qual = CORE + ".calc_bias_cut"
    params = ("beta", "tau")

    def pre(self, n, e):
        return z3.And(R(e["tau"]) > 0, R(e["beta"]) > -R(e["tau"]), R(e["tau"]) + R(n) * R(e["beta"]) > 0)

    def slab(self, e):
        return R(e["tau"]) * R(e["tau"]), e["beta"], None

    def guard(self, n, e):
        return R(e["beta"]) < R(e["tau"])

    def spec(self, I, n, e):
        return spec_bias(I, n, e["beta"], e["tau"])


class BiasFast(Bias):
    qual = CORE + ".calc_bias_cut_fast"
    params = ("beta", "tau", "eta")

    def pre(self, n, e):
        return z3.And(super().pre(n, e), R(e["eta"]) == R(e["tau"]) + R(n) * R(e["beta"]))


class Central(CoreFn):
    qual = CORE + ".calc_central_cut"
    params = ("tau",)

    def pre(self, n, e):
        return R(e["tau"]) > 0

    def slab(self, e):
        return R(e["tau"]) * R(e["tau"]), Fraction(0), None

    def spec(self, I, n, e):
        return spec_bias(I, n, Fraction(0), e["tau"])


class ParCentral(CoreFn):
    qual = CORE + ".calc_parallel_central_cut"
    params = ("beta1", "tsq")

    def pre(self, n, e):
        b1, T = R(e["beta1"]), R(e["tsq"])
        return z3.And(T > 0, b1 >= 0, b1 * b1 < T)

    def guard(self, n, e):
        return R(e["beta1"]) > 0

    def slab(self, e):
        return e["tsq"], Fraction(0), e["beta1"]

    def spec(self, I, n, e):
        return spec_par(I, n, Fraction(0), e["beta1"], e["tsq"])


class ParCentralOld(ParCentral):
    qual = CORE + ".calc_parallel_central_cut_old"

    def pre(self, n, e):
        return z3.And(super().pre(n, e), R(e["beta1"]) > 0)


class Par(CoreFn):
    qual = CORE + ".calc_parallel_bias_cut"
    params = ("beta0", "beta1", "tsq")

    def pre(self, n, e):
        b0, b1, T = R(e["beta0"]), R(e["beta1"]), R(e["tsq"])
        return z3.And(T > 0, b0 <= b1, b1 * b1 < T, T + R(n) * b0 * b1 > 0)

    def guard(self, n, e):
        return R(e["beta0"]) < R(e["beta1"])

    def slab(self, e):
        return e["tsq"], e["beta0"], e["beta1"]

    def spec(self, I, n, e):
        return spec_par(I, n, e["beta0"], e["beta1"], e["tsq"])


class ParFast(Par):
    qual = CORE + ".calc_parallel_bias_cut_fast"
    params = ("beta0", "beta1", "tsq", "b0b1", "eta")

    def pre(self, n, e):
        return z3.And(super().pre(n, e), R(e["b0b1"]) == R(e["beta0"]) * R(e["beta1"]),
                      R(e["eta"]) == R(e["tsq"]) + R(n) * R(e["b0b1"]))


class ParOld(Par):
    qual = CORE + ".calc_parallel_bias_cut_old"

    def pre(self, n, e):
        return z3.And(super().pre(n, e), R(e["beta0"]) + R(e["beta1"]) != 0, R(e["beta0"]) < R(e["beta1"]))


class ParFast2(ParFast):
    qual = CORE + ".calc_parallel_bias_cut_fast2"

    def pre(self, n, e):
        return z3.And(super().pre(n, e), R(e["beta0"]) + R(e["beta1"]) != 0, R(e["beta0"]) < R(e["beta1"]))


class ParFastOld(ParFast):
    qual = CORE + ".calc_parallel_bias_cut_fast_old"

    def pre(self, n, e):
        return z3.And(super().pre(n, e), R(e["beta0"]) < R(e["beta1"]))


CORE_USED = (Bias, BiasFast, Central, ParCentral, Par, ParFast)
CORE_ALL = CORE_USED + (ParCentralOld, ParOld, ParFast2, ParFastOld)


def make_core(I, n):
    ci = I.src.cls(CORE)
    if ci is None:
        raise Unsupported("EllCalcCore not found")
    o = I.instantiate(ci, [n], {})
    o.ghost_n = n
    return o


class CoreTask(Task):
    def __init__(self, prop, contract, others):
        super().__init__(prop)
        self.c = contract(prop)
        self.qual = self.c.qual
        self.title = self.qual
        self.contracts = [k(prop) for k in others if k is not contract]

    def setup(self, I):
        n = I.fresh("n", IZ)
        I.assume(n >= 2)
        o = make_core(I, z3.ToReal(n) if I.choose(2, "n float or int") == 0 else n)
        o.ghost_n = n
        e = {p: I.fresh(p) for p in self.c.params}
        I.assume(self.c.pre(n, e))
        return [o] + [e[p] for p in self.c.params], {}, (n, e)

    def check(self, I, ctx, out):
        n, e = ctx
        if out[0] == "raise":
            I.prove(f"no exception ({out[1]})", False)
        v = out[1]
        if not is_triple(v):
            raise Unsupported("result is not a triple")
        prove_each(I, "ensures", self.c.clauses(I, n, e, v))


class SpecLemma(Task):
    """specialisations between the closed forms (C06), checked on the specification functions"""
    qual = CORE + ".__init__"
    title = "closed forms specialise to one another"

    def run_one(self, I):
        I.covers["pre"] = "sat"
        I.nreturns = 1
        n, tau, b = I.fresh("n"), I.fresh("tau"), I.fresh("b")
        I.assume(z3.And(n >= 2, tau > 0, b > -tau, b < tau, tau + n * b > 0))
        for nm, x, y in zip(("rho", "sigma", "delta"), spec_par(I, n, b, tau, tau * tau), spec_bias(I, n, b, tau)):
            I.prove(f"two-sided with b1 = tau equals one-sided: {nm}", same(x, y), kind="lemma", assume=False)


# ----------------------------------------------------------------- EllCalc

STATUS = ("Success", "NoSoln", "NoEffect")


def enum(I, name):
    return EnumMember("CutStatus", name, None)


class CalcFn(Contract):
    """contract of the functions that choose status and parameters from offsets beta and squared width tsq"""
    kind = "bias"  # bias / central / q

    def sides(self, env):
        """(b0, b1 or None) of the cut, and whether the parallel switch matters"""
        raise NotImplementedError

    def pre(self, n, T, b0, b1):
        f = [R(T) > 0]
        if self.kind == "bias":
            if b1 is not None:
                f.append(R(b0) >= 0)
        if self.kind == "q" and b1 is not None:
            # b1 <= -tau would leave nothing or a single point and is not decided by the code
            f.append(z3.Or(R(b1) < R(b0), R(b1) > 0, R(b1) * R(b1) < R(T)))
        if self.kind == "central" and b1 is not None:
            pass
        return z3.And(*f)

    def status(self, n, T, b0, b1):
        """{status: condition}; 'raise' for a negative one-sided bias offset"""
        n, T = R(n), R(T)
        if self.kind == "central":
            if b1 is None:
                return {"Success": z3.BoolVal(True)}
            return {"NoSoln": R(b1) < 0, "Success": R(b1) >= 0}
        b0 = R(b0)
        gt = z3.And(b0 > 0, b0 * b0 > T)  # b0 > tau
        if self.kind == "bias":
            if b1 is None:
                return {"raise": b0 < 0, "NoSoln": gt, "Success": z3.And(b0 >= 0, b0 * b0 <= T)}
            b1 = R(b1)
            ns = z3.Or(b1 < b0, gt)
            return {"NoSoln": ns, "Success": z3.Not(ns)}
        # q:   tau + n b <= 0  <=>  b < 0 and n^2 b^2 >= T
        one_ne = z3.And(b0 < 0, n * n * b0 * b0 >= T)
        if b1 is None:
            return {"NoSoln": gt, "NoEffect": one_ne, "Success": z3.Not(z3.Or(gt, one_ne))}
        b1 = R(b1)
        ns = z3.Or(b1 < b0, gt)
        ne = z3.And(z3.Not(ns), z3.If(z3.And(b1 > 0, b1 * b1 >= T), one_ne, T + n * b0 * b1 <= 0))
        return {"NoSoln": ns, "NoEffect": ne, "Success": z3.Not(z3.Or(ns, ne))}

    def interior(self, n, T, b0, b1):
        """the region left by the cut has an interior (needed for sigma < 1)"""
        T = R(T)
        if self.kind == "central":
            return z3.BoolVal(True) if b1 is None else R(b1) > 0
        c = z3.Or(R(b0) < 0, R(b0) * R(b0) < T)
        if b1 is not None:
            c = z3.And(c, R(b0) < R(b1), z3.Or(R(b1) > 0, R(b1) * R(b1) < T))
        return c

    def clauses(self, I, n, T, b0, b1, rsd):
        """about the parameters of a Success"""
        bb0 = Fraction(0) if self.kind == "central" else b0
        g = self.interior(n, T, b0, b1)
        tau = sqr(I, T)

        def spec():
            one = spec_bias(I, n, bb0, tau)
            if b1 is None:
                return one
            two = spec_par(I, n, bb0, b1, T)
            c = z3.And(R(b1) > 0, R(b1) * R(b1) >= R(T))
            return tuple(ite(c, x, y) for x, y in zip(one, two))

        return [(nm, z3.Implies(g, f)) for nm, f in clause(self.prop, I, n, T, rsd, bb0, b1, spec)]

    def decode(self, I, env, at_call):
        """returns (n, T, b0, b1) or None"""
        raise NotImplementedError

    def apply(self, I, n, T, b0, b1, up=True):
        """assume the postcondition; returns (status, result)"""
        I.prove(f"precondition of {self.qual.split(':')[1]}", self.pre(n, T, b0, b1), kind="pre")
        st = self.status(n, T, b0, b1)
        names = list(st)
        k = names[I.choose(len(names), "status")]
        I.assume(st[k])
        if I.qs.check() == z3.unsat:
            raise PathEnd
        if k == "raise":
            raise PyRaise("AssertionError")
        if k != "Success":
            return (enum(I, k), None)
        rsd = tuple(I.fresh(x) for x in ("rho", "sigma", "delta"))
        for _, f in self.clauses(I, n, T, b0, b1, rsd):
            I.assume(f)
        return (enum(I, "Success"), rsd)

    def verdict(self, I, ctx, out):
        """obligations about the outcome of the real body"""
        n, T, b0, b1 = ctx
        st = self.status(n, T, b0, b1)
        if out[0] == "raise":
            ok = out[1] == "AssertionError" and "raise" in st
            I.prove(f"exception {out[1]} only where the contract allows it", st["raise"] if ok else False, assume=False)
            return
        v = out[1]
        if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], EnumMember)):
            raise Unsupported("result is not (status, parameters)")
        s, rsd = v
        if self.prop == "C04":
            I.prove(f"status {s.name} exactly where the contract says", st.get(s.name, z3.BoolVal(False)), assume=False)
        if s.name == "Success":
            if self.prop == "C04":
                I.prove("Success carries parameters", rsd is not None, assume=False)
            if rsd is None:
                return
            if not is_triple(rsd):
                raise Unsupported("parameters are not a triple")
            prove_each(I, "ensures on Success", self.clauses(I, n, T, b0, b1, rsd))
        elif self.prop == "C04":
            I.prove("no parameters without Success", rsd is None, assume=False)


class BiasCut(CalcFn):
    qual = CALC + ".calc_bias_cut"
    kind = "bias"
    two = False

    def call(self, I, env):
        n = getattr(env["self"], "ghost_n", None)
        if n is None or not all(is_num(env.get(k)) for k in ("beta", "tsq")):
            return NotImplemented
        return self.apply(I, n, env["tsq"], env["beta"], None)


class BiasCutQ(BiasCut):
    qual = CALC + ".calc_bias_cut_q"
    kind = "q"


class Parallel(CalcFn):
    qual = CALC + ".calc_parallel"
    kind = "bias"
    two = True

    def call(self, I, env):
        n = getattr(env["self"], "ghost_n", None)
        if n is None or not all(is_num(env.get(k)) for k in ("beta0", "beta1", "tsq")):
            return NotImplemented
        return self.apply(I, n, env["tsq"], env["beta0"], env["beta1"])


class ParallelQ(Parallel):
    qual = CALC + ".calc_parallel_q"
    kind = "q"


class Dispatch(CalcFn):
    """beta is a number, a one-element or a two-element sequence"""
    qual = CALC + ".calc_single_or_parallel"
    kind = "bias"

    def call(self, I, env):
        n = getattr(env["self"], "ghost_n", None)
        b = env.get("beta")
        if n is None or not is_num(env.get("tsq")):
            return NotImplemented
        if is_num(b):
            b0, b1 = b, None
        else:
            if isinstance(b, Arr):
                if not conc(b.shape[0]):
                    return NotImplemented
            items = I.concrete_items(b)
            if len(items) < 2 or not I.branch(I.truth(I.getattr(env["self"], "use_parallel_cut"))):
                b0, b1 = items[0], None
            else:
                b0, b1 = items[0], items[1]
        return self.apply(I, n, env["tsq"], b0, b1)


class DispatchCentral(Dispatch):
    qual = CALC + ".calc_single_or_parallel_central_cut"
    kind = "central"


class DispatchQ(Dispatch):
    qual = CALC + ".calc_single_or_parallel_q"
    kind = "q"


CALC_INNER = (BiasCut, BiasCutQ, Parallel, ParallelQ)
CALC_DISPATCH = (Dispatch, DispatchCentral, DispatchQ)


def make_calc(I, n):
    ci = I.src.cls(CALC)
    if ci is None:
        raise Unsupported("EllCalc not found")
    o = I.instantiate(ci, [n], {})
    mark_n(o, n)
    return o


def mark_n(o, n, depth=0):
    o.ghost_n = n
    for v in o.attrs.values():
        if isinstance(v, Obj) and depth < 3:
            mark_n(v, n, depth + 1)


class CalcTask(Task):
    def __init__(self, prop, contract):
        super().__init__(prop)
        self.c = contract(prop)
        self.qual = self.c.qual
        self.title = self.qual
        inner = CALC_INNER if contract in CALC_DISPATCH else (BiasCut, BiasCutQ)
        self.contracts = [k(prop) for k in inner if k is not contract] + [k(prop) for k in CORE_USED]

    def setup(self, I):
        n = I.fresh("n", IZ)
        I.assume(n >= 2)
        o = make_calc(I, n)
        declare(o, "use_parallel_cut").attrs["use_parallel_cut"] = I.fresh("use_parallel_cut", z3.BoolSort())
        T = I.fresh("tsq")
        if isinstance(self.c, Dispatch):
            form = I.choose(5, "form of beta")
            b0, b1 = I.fresh("beta0"), I.fresh("beta1")
            if form == 0:
                beta, b1 = b0, None
            elif form == 1:
                beta, b1 = (b0,), None
            elif form == 2:
                beta = (b0, b1)
            elif form == 3:
                beta = I.lit([b0, b1])
            else:
                beta = I.lit([b0])
                b1 = None
            if b1 is not None:
                if not I.branch(o.attrs["use_parallel_cut"]):
                    b1 = None
            I.assume(self.c.pre(n, T, b0, b1))
            return [o, beta, T], {}, (n, T, b0, b1)
        if self.c.two:
            b0, b1 = I.fresh("beta0"), I.fresh("beta1")
            I.assume(self.c.pre(n, T, b0, b1))
            return [o, b0, b1, T], {}, (n, T, b0, b1)
        b = I.fresh("beta")
        I.assume(self.c.pre(n, T, b, None))
        return [o, b, T], {}, (n, T, b, None)

    def check(self, I, ctx, out):
        self.c.verdict(I, ctx, out)


def tasks(prop):
    ts = []
    if prop == "C06":
        ts += [CoreTask(prop, c, CORE_ALL) for c in CORE_ALL]
        ts.append(SpecLemma(prop))
        return ts
    ts += [CoreTask(prop, c, CORE_USED) for c in CORE_USED]
    ts += [CalcTask(prop, c) for c in CALC_INNER + CALC_DISPATCH]
    return ts
